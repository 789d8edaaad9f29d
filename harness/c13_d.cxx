// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c13_cuts.hxx"
#include "ladder.hxx"
// larger flow networks, against augmenting paths on a plain matrix of residual capacities
static double maxFlow(int n, const std::vector<CutEdge>& e) {
   struct A { int to; double c; size_t back; }; std::vector<std::vector<A> > g(n); for(auto& x : e) if(x.a != x.b) { g[x.a].push_back(A{x.b, x.w, g[x.b].size()}); g[x.b].push_back(A{x.a, 0, g[x.a].size() - 1}); }
   double flow = 0; for(;;) { std::vector<std::pair<int, int> > via(n, std::make_pair(-1, -1)); via[0].first = 0; std::vector<int> q(1, 0); for(size_t i = 0; i < q.size() && via[1].first < 0; ++i) for(size_t k = 0; k < g[q[i]].size(); ++k) { A& a = g[q[i]][k]; if(a.c > 0 && via[a.to].first < 0) { via[a.to] = std::make_pair(q[i], (int)k); q.push_back(a.to); } }
      if(via[1].first < 0) return flow; double m = 1e30; for(int v = 1; v != 0; v = via[v].first) m = std::min(m, g[via[v].first][via[v].second].c); for(int v = 1; v != 0; v = via[v].first) { A& a = g[via[v].first][via[v].second]; a.c -= m; g[v][a.back].c += m; } flow += m; }
}
template<class V, BoostMaxFlowAlgorithm A> static void bigCut(mc::Ctx& c, int n, const std::vector<CutEdge>& e, bool reserve) {
   opengm::MinSTCutBoost<size_t, V, A> m(n, reserve ? e.size() : 0); for(auto& x : e) m.addEdge(x.a, x.b, (V)x.w); std::vector<bool> g; m.calculateCut(g); c.step(); c.eq(g.size(), (size_t)n, "one side per node"); c.state(mc::mix(n, e.size()));
   double w = 0; for(auto& x : e) { bool a = x.a == 0 ? false : x.a == 1 ? true : (bool)g[x.a], b = x.b == 0 ? false : x.b == 1 ? true : (bool)g[x.b]; if(!a && b) w += x.w; } double best = maxFlow(n, e); c.near(w, best, 1e-9 * (1 + best), "weight of the returned cut is minimal"); c.outcome((uint64_t)(best * 16));
}
MC_SCENARIO("ladder/cut") {
   const int n = ladder(c, c.tier(129, 300), 3), shape = c.pick(std::vector<int>{CHAIN, GRID2, GRID3, RING, BACKWARD, STAR, BINARY_TREE}), alg = c.choose(3), pat = c.choose(3); std::vector<CutEdge> e; unsigned x = n * 7919u + pat * 104729u; auto rnd = [&](int m) { x = x * 1664525u + 1013904223u; return (int)((x >> 16) % m); };
   for(int v = 2; v < n; ++v) { if(rnd(3)) e.push_back(CutEdge{0, v, (double)rnd(9)}); if(rnd(3)) e.push_back(CutEdge{v, 1, (double)rnd(9)}); }
   for(auto& s : shapeEdges(shape, n - 2)) { if(pat != 1 || rnd(2)) e.push_back(CutEdge{s[0] + 2, s[1] + 2, (double)rnd(7)}); if(pat && rnd(2)) e.push_back(CutEdge{s[1] + 2, s[0] + 2, (double)rnd(5)}); } if(pat == 2) std::reverse(e.begin(), e.end());
   MC_TRACE(c, n << " nodes, shape " << shape << " algorithm " << alg << " pattern " << pat);
   if(alg == 0) bigCut<double, opengm::PUSH_RELABEL>(c, n, e, c.flip()); else if(alg == 1) bigCut<int, opengm::EDMONDS_KARP>(c, n, e, c.flip()); else bigCut<double, opengm::KOLMOGOROV>(c, n, e, c.flip());
}
// larger submodular models
MC_SCENARIO("ladder/graph cut") {
   typedef GmOf<double, opengm::Adder>::type GD; const int n = ladder(c, c.tier(65, 257)), shape = c.choose(SHAPES), alg = c.choose(3), how = c.choose(3); const bool max = c.flip(); RefModel r = ladderModel(shape, n, {2}, c.choose(2), true, c.flip());
   for(auto& f : r.f) if(f.v.size() == 2) { double g = f.t[0] + f.t[3] - f.t[1] - f.t[2]; if(g > 0) f.t[3] -= g; if(n > 2 && f.v[0] % 7 == 3) std::swap(f.t[1], f.t[2]); } if(max) for(auto& f : r.f) for(double& x : f.t) x = -x;
   if(max) algorithms<GD, opengm::Maximizer, double>(c, r, alg, how, 1); else algorithms<GD, opengm::Minimizer, double>(c, r, alg, how, 1);
}
// chains of third order terms
MC_SCENARIO("ladder/third order") {
   typedef GmOf<double, opengm::Adder>::type GD; const int n = ladder(c, c.tier(33, 129), 3), alg = c.choose(3); RefModel r; r.L.assign(n, 2); int p = c.choose(3); Scopes s; for(int i = 0; i < n; ++i) s.push_back({i}); for(int i = 0; i + 2 < n; i += 1 + p % 2) s.push_back({i, i + 1, i + 2}); r = fixedModel(r.L, s);
   for(size_t i = 0; i < r.f.size(); ++i) { fillPattern(r, (int)i, (int)(i + p) % 2); if(r.f[i].v.size() == 3) { auto& t = r.f[i].t; const int q = (int)i % 3; for(int k = 0; k < 8; ++k) { int ones = __builtin_popcount(k); t[k] = q == 0 ? (ones % 3 ? 3.5 : 0) : q == 1 ? (ones == 3 ? -4 : 0) : (k == 0 ? -2.5 : ones == 3 ? -1 : 0.5); } if(!submodular(t, 1)) c.fail("harness: term is not submodular"); } }
   algorithms<GD, opengm::Minimizer, double>(c, r, alg, 0, 1);
}
