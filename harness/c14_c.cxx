// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c14_local.hxx"
typedef GmOf<double, opengm::Adder>::type GA; typedef GmOf<double, opengm::Multiplier>::type GX; typedef GmOf<float, opengm::Adder, unsigned, unsigned char>::type GF;
MC_SCENARIO("infer_and_flip") {
   int n = c.range(1, 3), k = c.range(0, c.tier(2, 3)); RefModel r = anyModel(c, n, {1, 2, 3}, k, 0, 3, 2); int size = c.range(1, n);
   switch(c.choose(4)) { case 0: infFlip<GA, opengm::Minimizer, opengm::ICM<GA, opengm::Minimizer> >(c, r, size); break; case 1: infFlip<GA, opengm::Maximizer, opengm::GreedyGremlin<GA, opengm::Maximizer> >(c, r, size); break; case 2: infFlip<GF, opengm::Minimizer, opengm::GreedyGremlin<GF, opengm::Minimizer> >(c, r, size); break; default: makePositive(r); infFlip<GX, opengm::Maximizer, opengm::ICM<GX, opengm::Maximizer> >(c, r, size); }
}
MC_SCENARIO("greedy/models") {
   int n = c.range(0, 4); if(n == 0) { RefModel r; if(c.flip()) { RefFactor f; f.t = {3}; r.f.push_back(f); } greedy<GA, opengm::Minimizer>(c, r); return; }
   int k = c.range(0, n < 4 ? c.tier(3, 4) : c.tier(2, 3)); RefModel r = anyModel(c, n, n < 4 ? std::vector<int>{1, 2, 3} : std::vector<int>{2, 3}, k, 0, 3, k < 3 || c.thorough ? 3 : 2, n < 4);
   switch(c.choose(3)) { case 0: greedy<GA, opengm::Minimizer>(c, r); break; case 1: greedy<GF, opengm::Maximizer>(c, r); break; default: makePositive(r); greedy<GX, opengm::Maximizer>(c, r); }
}
MC_SCENARIO("greedy/cycles") {
   static const Scopes st[] = {{{0, 1}, {0, 2}, {1, 2}, {0}}, {{0, 1}, {1, 2}, {2, 3}, {0, 3}}, {{0, 1, 2}, {1}, {2}, {2, 3}}, {{2, 3}, {0, 1}, {1, 3}, {0, 2}, {1}}};
   RefModel r = fixedModel({2, 3, 2, 3}, st[c.choose(4)]); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, c.choose(5)); greedy<GA, opengm::Minimizer>(c, r);
}
