// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c05_views.hxx"
typedef Views<Adder, double, size_t, size_t> V;
MC_SCENARIO("plain") { V::plain(c); }
MC_SCENARIO("scaled") { V::scaled(c); }
