// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c14_local.hxx"
typedef GmOf<double, opengm::Adder>::type GA; typedef GmOf<double, opengm::Multiplier>::type GX; typedef GmOf<float, opengm::Adder, unsigned, unsigned char>::type GF;
MC_SCENARIO("lazy/models") {
   int n = c.range(1, 3), k = c.range(0, c.tier(3, 4)); RefModel r = anyModel(c, n, k < 3 || c.thorough ? std::vector<int>{1, 2, 3} : std::vector<int>{2, 3}, k, 0, 3, k < 3 || c.thorough ? 3 : 1);
   bool binary = true; for(int l : r.L) binary = binary && l == 2; std::vector<int> start = anyLabeling(c, r); int size = c.range(1, n + 1), ml = c.choose(binary ? 3 : 2), how = ml == 0 ? c.choose(3) : 0;
   switch(k < 3 || c.thorough ? c.choose(3) : 0) { case 0: lazy<GA, opengm::Minimizer>(c, r, size, start, ml, how, how == 0); break; case 1: lazy<GF, opengm::Maximizer>(c, r, size, start, ml, how, false); break; default: makePositive(r); lazy<GX, opengm::Maximizer>(c, r, size, start, ml, how, false); }
}
// a model on every graph in which exactly one connected subset of variables is worth flipping
static void needle(mc::Ctx& c, int n, bool multilabel) {
   std::vector<std::pair<int, int> > e; for(int a = 0; a < n; ++a) for(int b = a + 1; b < n; ++b) if(c.flip()) e.push_back({a, b});
   RefModel r; r.L.assign(n, multilabel ? 3 : 2); for(auto& x : e) { RefFactor f; f.v = {x.first, x.second}; r.f.push_back(f); }
   int S = c.range(1, (1 << n) - 1); auto a = adjacency(r); if(!connectedSet(a, S)) c.prune(); int k = __builtin_popcount(S); if(k < 2 || k == n + 1) c.prune();
   const int L = r.L[0], target = L - 1;
   for(auto& f : r.f) { bool in = (S >> f.v[0] & 1) && (S >> f.v[1] & 1); f.t.assign(L * L, 0); if(in) for(int x = 0; x < L; ++x) for(int y = 0; y < L; ++y) if((x == target) != (y == target)) f.t[x + L * y] = 4; }
   for(int i = 0; i < n; ++i) { RefFactor f; f.v = {i}; f.t.assign(L, 1); f.t[0] = 0; if(S >> i & 1) f.t[target] = -1.0 / 4; r.f.push_back(f); }
   std::vector<int> start(n, 0); int size = c.range(k, std::min(n, k + c.tier(0, 1)));
   lazy<GA, opengm::Minimizer>(c, r, size, start, 0, 0, false);
}
MC_SCENARIO("lazy/needle") { needle(c, c.range(2, c.tier(5, 6)), false); }
MC_SCENARIO("lazy/needle_multilabel") { needle(c, c.range(2, c.tier(4, 5)), true); }
// paths, stars and rings over more variables with every start
MC_SCENARIO("lazy/larger") {
   static const Scopes st[] = {{{0, 1}, {1, 2}, {2, 3}, {3, 4}, {0, 4}}, {{0, 3}, {1, 3}, {2, 3}, {3, 4}}, {{0, 1, 2}, {2, 3, 4}, {1, 3}}, {{0, 1}, {2, 3}, {3, 4}, {2, 4}, {1, 4}}};
   RefModel r = fixedModel(std::vector<int>(5, 2), st[c.choose(4)]); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, c.choose(3)); for(int i = 0; i < 5; ++i) { RefFactor f; f.v = {i}; r.f.push_back(f); fillPattern(r, (int)r.f.size() - 1, i % 2); }
   std::vector<int> start = anyLabeling(c, r); lazy<GA, opengm::Minimizer>(c, r, c.range(1, c.tier(3, 5)), start, c.choose(2), 0, c.thorough);
}
