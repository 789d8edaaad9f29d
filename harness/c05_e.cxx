// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c05_views.hxx"
typedef Views<Multiplier, float, unsigned, unsigned char> V;
MC_SCENARIO("multiplier/plain") { V::plain(c); }
MC_SCENARIO("multiplier/scaled") { V::scaled(c); }
MC_SCENARIO("multiplier/scaled_with_offset") { V::modelView(c); }
MC_SCENARIO("multiplier/convert") { if(c.flip()) V::convert<Minimizer>(c, -1); else V::convert<Maximizer>(c, 1); }
