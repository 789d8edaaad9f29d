// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c18_partial.hxx"
typedef GmOf<double, opengm::Adder>::type GD; typedef GmOf<int, opengm::Adder>::type GI; typedef GmOf<float, opengm::Adder, unsigned, unsigned char>::type GF;
// every table over a value set
MC_SCENARIO("qpbo/pair") { RefModel r = fixedModel({2, 2}, {{0, 1}, {0}, {1}}); if(c.flip()) std::swap(r.f[0], r.f[2]); std::vector<double> v = {-2, 0, 1}; for(int i = 0; i < 3; ++i) fillAll(c, r, i, v); qpbos<GD, double>(c, r, c.choose(3), true); }
MC_SCENARIO("qpbo/pair/values") { RefModel r = fixedModel({2, 2}, {{0, 1}, {1}}); fillAll(c, r, 0, {-3, -0.5, 0, 1, 2.5}); fillAll(c, r, 1, {0, 1.5, -1}); qpbos<GF, double>(c, r, c.choose(3)); }
MC_SCENARIO("qpbo/parallel") { RefModel r = fixedModel({2, 2}, {{0, 1}, {0, 1}, {0}}); for(int i = 0; i < 2; ++i) fillAll(c, r, i, {-1, 0, 2}); r.f[2].t = {0, (double)c.choose(3) - 1}; qpbos<GD, double>(c, r, 2 - c.choose(c.tier(1, 3))); }
MC_SCENARIO("qpbo/chain") { RefModel r = fixedModel({2, 2, 2}, {{0, 1}, {1, 2}, {2}}); for(int i = 0; i < 2; ++i) fillAll(c, r, i, {-1, 0, 2}); r.f[2].t = {0, (double)c.choose(3) * 2 - 2.5}; qpbos<GD, double>(c, r, c.choose(3)); }
MC_SCENARIO("qpbo/triangle") {   // including frustrated ones
   RefModel r = fixedModel({2, 2, 2}, {{0, 1}, {1, 2}, {0, 2}, {0}, {1}}); for(int i = 0; i < 3; ++i) { if(c.thorough) fillAll(c, r, i, {0, 1, -1.5}); else fillAll(c, r, i, {0, 1}); } for(int i = 3; i < 5; ++i) r.f[i].t = {0, (double)c.choose(4) - 2}; qpbos<GD, double>(c, r, c.choose(3));
}
MC_SCENARIO("qpbo/structures") {
   const int n = c.range(0, 4), k = c.range(0, 4); RefModel r; r.L.assign(n, 2); Scopes s = allScopes(n, 0, 2); int last = 0; for(int i = 0; i < k; ++i) { last += c.choose((int)s.size() - last); RefFactor f; f.v = s[last]; r.f.push_back(f); }
   for(int i = 0; i < k; ++i) { static const double u[][2] = {{0, -1}, {2, 0.5}, {1, 3}}, p[][4] = {{0, 1, 1, 0}, {1, 0, 0, 1}, {-1, 2, 0.5, 1}, {0, -2, 1, 0.5}, {3, 0, -1, 0}}; auto& f = r.f[i]; if(f.v.empty()) f.t = {c.flip() ? -2.0 : 1.5}; else if(f.v.size() == 1) { auto* q = u[c.choose(k < 4 || c.thorough ? 3 : 2)]; f.t.assign(q, q + 2); } else { auto* q = p[c.choose(k < 4 ? 5 : c.tier(3, 5))]; f.t.assign(q, q + 4); } }
   qpbos<GD, double>(c, r, k < 4 || c.thorough ? c.choose(3) : 2);
}
MC_SCENARIO("qpbo/integers") { RefModel r = fixedModel({2, 2, 2}, {{0, 1}, {1, 2}, {0}, {2}}); for(int i = 0; i < 2; ++i) { if(c.thorough) fillAll(c, r, i, {0, 1, -1}); else fillAll(c, r, i, {0, 1}); } for(int i = 2; i < 4; ++i) r.f[i].t = {0, (double)c.choose(3) - 1}; qpbos<GI, int>(c, r, c.choose(3)); }
MC_SCENARIO("qpbo/cycles") {
   RefModel r = fixedModel({2, 2, 2, 2}, {{0, 1}, {1, 2}, {2, 3}, {0, 3}, {0, 2}, {0}, {3}}); if(c.flip()) r.f.erase(r.f.begin() + 4); static const double p[][4] = {{0, 1, 1, 0}, {1, 0, 0, 1}, {-1, 2, 0.5, 1}, {0, -2, 1, 0.5}, {3, 0, -1, 0}, {0, 0, 0, 1}, {1, 0, 0, 0}};
   for(auto& f : r.f) if(f.v.size() == 2) { auto* q = p[c.choose(c.tier(5, 7))]; f.t.assign(q, q + 4); } else f.t = {0, (double)c.choose(3) - 1}; qpbos<GD, double>(c, r, c.choose(3));
}
// every 2-SAT formula: each pair of variables forbids any set of its four assignments
typedef opengm::GraphicalModel<bool, opengm::And, opengm::ExplicitFunction<bool>, opengm::DiscreteSpace<> > GB;
static void sat(mc::Ctx& c, const RefModel& r, bool twice) {
   GB gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str()); opengm::SAT<GB> s(gm);
   for(int k = 0; k < (twice ? 2 : 1); ++k) {
      c.eq((int)s.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step(); std::vector<int> t(r.L.size(), 0); bool any = false; do { bool ok = true; for(size_t i = 0; i < r.f.size(); ++i) ok = ok && r.factorValue((int)i, t) != 0; any = any || ok; } while(r.next(t));
      c.eq((bool)s.value(), any, "the value tells whether the formula is satisfiable"); c.outcome(any);
   }
}
MC_SCENARIO("sat/pairs") { int n = c.range(2, 4); RefModel r; r.L.assign(n, 2); for(auto& v : allScopes(n, 2, 2)) { if(c.flip()) continue; RefFactor f; f.v = v; int q = c.choose(15); for(int i = 0; i < 4; ++i) f.t.push_back((q >> i) & 1 ? 1 : 0); if(n == 4 && r.f.size() >= (size_t)c.tier(4, 5)) c.prune(); r.f.push_back(f); } if(r.f.empty()) c.prune(); sat(c, r, n < 4); }
// single clauses (also repeated) in any order
MC_SCENARIO("sat/clauses") { int n = c.range(2, c.tier(3, 4)), k = c.range(1, n == 2 ? 6 : n == 3 ? 5 : 4); RefModel r; r.L.assign(n, 2); Scopes s = allScopes(n, 2, 2); for(int i = 0; i < k; ++i) { RefFactor f; f.v = s[c.choose((int)s.size())]; f.t.assign(4, 1); f.t[c.choose(4)] = 0; r.f.push_back(f); } sat(c, r, false); }
