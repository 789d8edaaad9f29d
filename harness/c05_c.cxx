// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c05_views.hxx"
typedef Views<Adder, double, size_t, size_t> V;
MC_SCENARIO("accumulated") { V::accumulated(c); }
MC_SCENARIO("convert/adder") { if(c.flip()) V::convert<Minimizer>(c, -1); else V::convert<Maximizer>(c, 1); }
