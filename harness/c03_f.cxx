// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c03_values.hxx"
#include "functions_ladder.hxx"
MC_SCENARIO("ladder/double") { const int fam = c.choose(10); Tab t(ladderShape(c, 1000, 12, c.tier(20000, 300000))); ladderFunction<double, size_t, size_t>(c, fam, t, [&](const auto& f, const Tab& t) { values(c, f, t, 0); shapeRange(c, f, t); auto g(f); values(c, g, t, 0); c.state(mc::mix(t.hash(), fam)); c.outcome(fam); }); }
MC_SCENARIO("ladder/narrow") { const int fam = c.choose(10); Tab t(ladderShape(c, 255, 12, c.tier(20000, 300000))); ladderFunction<float, unsigned, unsigned char>(c, fam, t, [&](const auto& f, const Tab& t) { values(c, f, t, 0); shapeRange(c, f, t); c.state(mc::mix(t.hash(), fam)); c.outcome(fam); }); }
MC_SCENARIO("ladder/integer") { const int fam = c.choose(10); Tab t(ladderShape(c, 1000, 12, c.tier(20000, 300000))); if(fam == 0) c.prune(); ladderFunction<int, unsigned short, unsigned short>(c, fam, t, [&](const auto& f, const Tab& t) { values(c, f, t, 0); shapeRange(c, f, t); c.state(mc::mix(t.hash(), fam)); c.outcome(fam); }); }
