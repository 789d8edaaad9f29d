// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c15_moves.hxx"
typedef GmOf<double, opengm::Multiplier>::type GX; typedef GmOf<int, opengm::Multiplier, unsigned, unsigned char>::type GI;
MC_SCENARIO("product/max") { moveScenario<GX, opengm::Maximizer>(c, 6, 2, {0, 1, 2, 3, 5}, false, 5, true); }   // pattern 2 contains zeros
MC_SCENARIO("product/min") { moveScenario<GX, opengm::Minimizer>(c, c.tier(4, 6), 2, {0, 1, 2, 3, 4, 6}, c.thorough, 5, true); }
MC_SCENARIO("product/deeper") { moveScenario<GX, opengm::Maximizer>(c, 6, 3, c.thorough ? std::vector<int>{1, 2, 3, 0} : std::vector<int>{2, 3, 4, 5}, false, 5, true); }
MC_SCENARIO("product/integers") {
   RefModel r = moveModel(c.choose(4)); for(size_t f = 0; f < r.f.size(); ++f) { auto& t = r.f[f].t; t.resize(r.tableSize(r.f[f].v)); for(size_t k = 0; k < t.size(); ++k) t[k] = 1 + (k * 5 + f * 3) % 7; }
   if(c.flip()) Moves<GI, opengm::Minimizer>::sequence(c, r, 2, {1, 2, 3}, false); else Moves<GI, opengm::Maximizer>::sequence(c, r, 2, {1, 2, 3}, false);
}
