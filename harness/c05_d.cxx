// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c05_views.hxx"
typedef Views<Multiplier, float, unsigned, unsigned char> V;
MC_SCENARIO("multiplier/fixed_variables") { V::fix(c); }
MC_SCENARIO("multiplier/accumulated") { V::accumulated(c); }
