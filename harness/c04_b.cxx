// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c04_summaries.hxx"
MC_SCENARIO("functions/float_uint32_uint8") { int fam = c.choose(13); family<float, unsigned, unsigned char>(c, fam, c.tier(4, 6), c.tier(4, 6), [&](const auto& f, const Tab& t) { summaries<float>(c, f, t, fam == 5); }); }
