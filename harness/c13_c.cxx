// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c13_cuts.hxx"
typedef GmOf<double, opengm::Adder>::type GD;
// third order factors (minimisation): every submodular table over three values
MC_SCENARIO("order3/tables") {
   RefModel r = fixedModel({2, 2, 2}, {{0, 1, 2}}); fillAll(c, r, 0, {-1, 0, 2}); if(!submodular(r.f[0].t, 1)) c.prune();
   int u = c.choose(4); if(u) { RefFactor f; f.v = {u - 1}; f.t = {0, 1}; if(c.flip()) f.t = {1.5, 0}; r.f.push_back(f); }
   int alg = c.choose(3), how = c.choose(3); algorithms<GD, opengm::Minimizer, double>(c, r, alg, how, 1);
}
// several third order factors, repeated scopes, mixed with lower orders
MC_SCENARIO("order3/structures") {
   static const Scopes st[] = {{{0, 1, 2}, {0, 1, 2}}, {{0, 1, 2}, {1, 2, 3}}, {{1, 2, 3}, {0, 1, 3}, {0, 1, 2}}, {{0, 1, 2}, {0, 2}, {0, 1, 2}, {1}}, {{0, 2, 4}, {1, 2, 3}, {0, 4}}, {{0, 1, 3}, {0, 2, 3}, {0, 1, 3}, {2}}};
   static const std::vector<std::vector<double> > t{{0, 0, 0, 0, 0, 0, 0, -3}, {-3, 0, 0, 0, 0, 0, 0, 0}, {1, 2, 2, 1, 2, 1, 1, -2}, {-2, 1, 1, 2, 1, 2, 2, 1}, {0, 1, 2, 1, 3, 2, 3, 0}, {0, 3, 2, 3, 1, 2, 1, -4}, {0, 2, 2, 2, 2, 2, 2, 0}, {5, 3, 2, 0, 6, 4, 2, -1}};
   int q = c.choose(6); int n = 0; for(auto& v : st[q]) for(int x : v) n = std::max(n, x + 1); RefModel r = fixedModel(std::vector<int>(n, 2), st[q]);
   for(auto& f : r.f) { if(f.v.size() == 3) { f.t = c.pick(t); if(!submodular(f.t, 1)) c.fail("table of the harness is not submodular"); } else if(f.v.size() == 2) f.t = c.flip() ? std::vector<double>{0, 2, 2, 0} : std::vector<double>{0, 1, 3, 4}; else f.t = {0, c.flip() ? 2.0 : -2.0}; }
   int shift = c.choose(n + 1); if(shift) { RefFactor f; f.v = {shift - 1}; f.t = {c.flip() ? 2.5 : -2.5, 0}; r.f.insert(r.f.begin(), f); }
   int alg = c.choose(3), how = c.choose(3); algorithms<GD, opengm::Minimizer, double>(c, r, alg, how, 1);
}
