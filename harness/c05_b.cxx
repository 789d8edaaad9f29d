// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c05_views.hxx"
typedef Views<Adder, double, size_t, size_t> V;
MC_SCENARIO("fixed_variables") { V::fix(c); }
MC_SCENARIO("scaled_with_offset") { V::modelView(c); }
