// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c14_local.hxx"
typedef GmOf<double, opengm::Adder>::type GA; typedef GmOf<double, opengm::Multiplier>::type GX; typedef GmOf<float, opengm::Adder, unsigned, unsigned char>::type GF;
MC_SCENARIO("icm/models") {
   int n = c.range(1, 3), k = c.range(0, c.tier(3, 4)); RefModel r = anyModel(c, n, {1, 2, 3}, k, 0, 3, k < 3 || c.thorough ? 2 : 1);
   switch(c.choose(k < 3 || c.thorough ? 3 : 1)) { case 0: icm<GA, opengm::Minimizer>(c, r); break; case 1: icm<GF, opengm::Maximizer>(c, r); break; default: makePositive(r); icm<GX, opengm::Maximizer>(c, r); }
}
// chains: the best move of one factor depends on factors further away
MC_SCENARIO("icm/chains") {
   int n = c.range(3, 4), k = n - 1; RefModel r; r.L.assign(n, 2); for(int i = 0; i < k; ++i) { RefFactor f; f.v = {i, i + 1}; r.f.push_back(f); } for(int i = 0; i < k; ++i) fillAll(c, r, i, n == 3 ? std::vector<double>{0, 1, 3} : std::vector<double>{0, 1});
   if(n == 4 && c.flip()) std::reverse(r.f.begin(), r.f.end());
   icm<GA, opengm::Minimizer>(c, r);
}
MC_SCENARIO("icm/chain_patterns") {
   RefModel r = fixedModel({2, 3, 2, 2, 3}, {{0, 1}, {1, 2}, {2, 3}, {3, 4}}); for(int i = 0; i < 4; ++i) fillPattern(r, i, c.choose(4)); int q = c.choose(4); std::rotate(r.f.begin(), r.f.begin() + q, r.f.end());
   for(int i = 0; i < 5; ++i) { RefFactor f; f.v = {i}; r.f.push_back(f); fillPattern(r, 4 + i, i % 2); if(!c.thorough && i == 2) break; }
   icm<GA, opengm::Minimizer>(c, r);
}
