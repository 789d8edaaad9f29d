// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
// C02: every small factor graph, structure queries against the definition on the bipartite graph.
#include "ladder.hxx"
#include <opengm/functions/constant.hxx>
#include <queue>
using mc::Ctx;
typedef opengm::ConstantFunction<double, size_t, size_t> CF;
typedef opengm::GraphicalModel<double, opengm::Adder, OPENGM_TYPELIST_2(CF, opengm::ExplicitFunction<double>), opengm::DiscreteSpace<size_t, size_t> > GM;
struct H { int n; std::vector<std::vector<int> > f; };
static bool has(const std::vector<int>& f, int v) { return std::count(f.begin(), f.end(), v) > 0; }

static void make(GM& gm, const H& h) {
   std::vector<size_t> L(h.n, 2); gm = GM(GM::SpaceType(L.begin(), L.end()));
   for(size_t i = 0; i < h.f.size(); ++i) { std::vector<size_t> sh(h.f[i].size(), 2); CF f(sh.begin(), sh.end(), 1.0); gm.addFactor(gm.addFunction(f), h.f[i].begin(), h.f[i].end()); }
}
static std::string str(const H& h) { std::ostringstream s; s << h.n << " variables;"; for(auto& f : h.f) s << " " << show(f); return s.str(); }
// is the multigraph of second-order factors a path visiting all variables (each consecutive pair joined by exactly one)?
static bool refChain(const H& h, std::vector<std::vector<int> >* orders = 0) {
   if(h.n == 0) return false; for(auto& f : h.f) if(f.size() > 2) return false;
   std::vector<std::vector<int> > e; for(auto& f : h.f) if(f.size() == 2) e.push_back(f);
   if((int)e.size() != h.n - 1) return false;
   std::vector<int> p(h.n); for(int i = 0; i < h.n; ++i) p[i] = i;
   do { bool ok = true; for(int i = 0; i + 1 < h.n && ok; ++i) { std::vector<int> q = {std::min(p[i], p[i + 1]), std::max(p[i], p[i + 1])}; ok = std::count(e.begin(), e.end(), q) == 1; } if(ok) return true; } while(std::next_permutation(p.begin(), p.end()));
   return false;
}
static bool adjacentExactlyOnce(const H& h, int a, int b) { int k = 0; for(auto& f : h.f) if(f.size() == 2 && has(f, a) && has(f, b)) ++k; return k == 1; }
static bool validChain(const H& h, const marray::Vector<size_t>& ids) {
   if((int)ids.size() != h.n) return false; std::set<size_t> s; for(int i = 0; i < h.n; ++i) { if(ids[i] >= (size_t)h.n) return false; s.insert(ids[i]); } if((int)s.size() != h.n) return false;
   for(int i = 0; i + 1 < h.n; ++i) if(!adjacentExactlyOnce(h, (int)ids[i], (int)ids[i + 1])) return false; return true;
}
static int nEdges(const H& h) { int k = 0; for(auto& f : h.f) if(f.size() == 2) ++k; return k; }
// does m lay the variables out so that the second-order factors are exactly the grid's edges?
template<class M> static bool validGrid(const H& h, const M& m, int R, int C) {
   if(R * C != h.n || nEdges(h) != R * (C - 1) + C * (R - 1)) return false; std::set<size_t> s; for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) { if(m(i, j) >= (size_t)h.n) return false; s.insert(m(i, j)); } if((int)s.size() != h.n) return false;
   for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) { if(i + 1 < R && !adjacentExactlyOnce(h, (int)m(i, j), (int)m(i + 1, j))) return false; if(j + 1 < C && !adjacentExactlyOnce(h, (int)m(i, j), (int)m(i, j + 1))) return false; }
   return true;
}
struct PM { std::vector<int> p; int C; size_t operator()(int i, int j) const { return p[i * C + j]; } };
static bool refGrid(const H& h) {
   if(h.n == 0) return false; for(auto& f : h.f) if(f.size() > 2) return false; if(h.n == 1) return true;
   for(int R = 1; R <= h.n; ++R) if(h.n % R == 0 && R <= h.n / R) {
      int C = h.n / R; if(nEdges(h) != R * (C - 1) + C * (R - 1)) continue;
      PM m; m.C = C; m.p.resize(h.n); for(int i = 0; i < h.n; ++i) m.p[i] = i;
      do { if(validGrid(h, m, R, C)) return true; } while(std::next_permutation(m.p.begin(), m.p.end()));
   }
   return false;
}
static void queries(Ctx& c, const H& h, bool grid) {
   GM gm; make(gm, h); int n = h.n, m = (int)h.f.size();
   // bipartite components and cycles by union-find over n + m nodes
   std::vector<int> comp(n + m); for(int i = 0; i < n + m; ++i) comp[i] = i; bool acyclic = true;
   for(int f = 0; f < m; ++f) for(int v : h.f[f]) { int a = comp[v], b = comp[n + f]; if(a == b) acyclic = false; else for(int& x : comp) if(x == b) x = a; }
   c.eq(gm.isAcyclic(), acyclic, "isAcyclic");
   std::set<int> comps; for(int i = 0; i < n; ++i) comps.insert(comp[i]);
   marray::Vector<size_t> rep; bool con = gm.isConnected(rep); c.eq(con, comps.size() == 1, "isConnected");
   if(n > 0) { c.eq(rep.size(), comps.size(), "number of component representatives"); std::set<int> seen; for(size_t i = 0; i < rep.size(); ++i) { c.check(rep[i] < (size_t)n, "representative out of range"); seen.insert(comp[rep[i]]); } c.eq(seen.size(), comps.size(), "one representative per component"); }
   size_t mo = 0; for(auto& f : h.f) mo = std::max(mo, f.size());
   c.eq(gm.maxFactorOrder(), mo, "maxFactorOrder()"); for(size_t k = 0; k <= 4; ++k) c.eq(gm.maxFactorOrder(k), mo <= k, "maxFactorOrder(k)"); c.eq(gm.factorOrder(), mo, "factorOrder");
   marray::Matrix<bool> am; gm.variableAdjacencyMatrix(am);
   std::vector<std::set<size_t> > vl, fl; gm.variableAdjacencyList(vl); gm.factorAdjacencyList(fl);
   std::vector<opengm::RandomAccessSet<size_t> > vr(1), fr(1); gm.variableAdjacencyList(vr); gm.factorAdjacencyList(fr);
   c.check((int)vl.size() == n && (int)vr.size() == n && (int)fl.size() == m && (int)fr.size() == m, "length of adjacency lists");
   for(int a = 0; a < n; ++a) {
      std::set<size_t> nb; for(int f = 0; f < m; ++f) if(has(h.f[f], a)) for(int v : h.f[f]) if(v != a) nb.insert(v);
      c.check(vl[a] == nb, "variableAdjacencyList"); c.check(std::set<size_t>(vr[a].begin(), vr[a].end()) == nb && vr[a].size() == nb.size(), "variableAdjacencyList (random access)");
      for(int b = 0; b < n; ++b) { c.eq((bool)am(a, b), nb.count(b) > 0, "variableAdjacencyMatrix"); c.eq(gm.variableVariableConnection(a, b), nb.count(b) > 0, "variableVariableConnection"); }
      std::vector<size_t> fs; for(int f = 0; f < m; ++f) { c.eq(gm.variableFactorConnection(a, f), has(h.f[f], a), "variableFactorConnection"); c.eq(gm.factorVariableConnection(f, a), has(h.f[f], a), "factorVariableConnection"); if(has(h.f[f], a)) fs.push_back(f); }
      c.check(std::vector<size_t>(gm.factorsOfVariableBegin(a), gm.factorsOfVariableEnd(a)) == fs, "factorsOfVariable range");
      for(size_t k = 0; k <= 4; ++k) {
         std::set<size_t> w; for(size_t f : fs) if(h.f[f].size() == k) w.insert(f);
         c.eq(gm.numberOfNthOrderFactorsOfVariable(a, k), w.size(), "numberOfNthOrderFactorsOfVariable"); marray::Vector<size_t> ids; c.eq(gm.numberOfNthOrderFactorsOfVariable(a, k, ids), w.size(), "numberOfNthOrderFactorsOfVariable with list");
         std::set<size_t> g; for(size_t i = 0; i < ids.size(); ++i) g.insert(ids[i]); c.check(g == w && ids.size() == w.size(), "list of n-th order factors");
      }
      for(size_t f : fs) if(h.f[f].size() == 2) c.eq((int)gm.secondVariableOfSecondOrderFactor(a, f), h.f[f][0] == a ? h.f[f][1] : h.f[f][0], "secondVariableOfSecondOrderFactor");
   }
   for(int f = 0; f < m; ++f) {
      std::set<size_t> nb; for(int g = 0; g < m; ++g) if(g != f) for(int v : h.f[g]) if(has(h.f[f], v)) nb.insert(g);
      c.check(fl[f] == nb, "factorAdjacencyList"); c.check(std::set<size_t>(fr[f].begin(), fr[f].end()) == nb && fr[f].size() == nb.size(), "factorAdjacencyList (random access)");
      for(int g = 0; g < m; ++g) c.eq(gm.factorFactorConnection(f, g), nb.count(g) > 0, "factorFactorConnection");
      std::vector<size_t> vs(h.f[f].begin(), h.f[f].end()); c.check(std::vector<size_t>(gm.variablesOfFactorBegin(f), gm.variablesOfFactorEnd(f)) == vs, "variablesOfFactor range");
   }
   marray::Vector<size_t> ids; bool ch = gm.isChain(ids); c.eq(ch, refChain(h), "isChain"); if(ch) c.check(validChain(h, ids), "chain order");
   if(grid) { marray::Matrix<size_t> g; bool gr = gm.isGrid(g); c.eq(gr, refGrid(h), "isGrid"); if(gr) c.check(validGrid(h, g, (int)g.shape(0), (int)g.shape(1)), "grid layout"); }
   uint64_t hs = n; for(auto& f : h.f) { hs = mc::mix(hs, 7); for(int v : f) hs = mc::mix(hs, v); } c.state(hs);
}
static void hyper(Ctx& c, int n, int k, int maxOrder) {
   H h; h.n = n; std::vector<std::vector<int> > s; for(int m = 0; m < (1 << n); ++m) { std::vector<int> v; for(int i = 0; i < n; ++i) if(m >> i & 1) v.push_back(i); if((int)v.size() <= maxOrder) s.push_back(v); }
   for(int i = 0; i < k; ++i) h.f.push_back(c.pick(s)); MC_TRACE(c, str(h)); queries(c, h, true);
}
MC_SCENARIO("hypergraphs/0-2_variables") { int n = c.range(0, 2); hyper(c, n, c.range(0, 4), 2); }
MC_SCENARIO("hypergraphs/3_variables") { hyper(c, 3, c.range(0, c.tier(5, 6)), 3); }
MC_SCENARIO("hypergraphs/4_variables") { hyper(c, 4, c.range(1, c.tier(4, 5)), 4); }
MC_SCENARIO("hypergraphs/5_variables") { hyper(c, 5, c.range(2, c.tier(3, 4)), 3); }
// all simple graphs (each pair joined or not, in both factor orders), optionally with one duplicated factor and unary factors
static void graphs(Ctx& c, int n, bool extras, int minE) {
   H h; h.n = n; for(int a = 0; a < n; ++a) for(int b = a + 1; b < n; ++b) if(c.flip()) h.f.push_back({a, b});
   if((int)h.f.size() < minE) c.prune();
   if(extras) { int k = c.choose(4); if(k & 1) for(int a = 0; a < n; a += 2) h.f.insert(h.f.begin(), {a}); if(k & 2) { if(h.f.empty()) c.prune(); h.f.push_back(h.f.back()); } if(c.flip()) std::reverse(h.f.begin(), h.f.end()); }
   MC_TRACE(c, str(h)); queries(c, h, true);
}
MC_SCENARIO("graphs/4_variables") { graphs(c, 4, true, 0); }
MC_SCENARIO("graphs/5_variables") { graphs(c, 5, c.thorough, 0); }
MC_SCENARIO("graphs/6_variables") { graphs(c, 6, false, c.tier(5, 0)); }
// grids and near-grids: every numbering of the variables (bounded), one edge removed, moved or duplicated, one variable added
static void grids(Ctx& c, int R, int C, const std::vector<int>& perm) {
   H h; h.n = R * C; std::vector<std::vector<int> > e;
   for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) { if(i + 1 < R) e.push_back({perm[i * C + j], perm[(i + 1) * C + j]}); if(j + 1 < C) e.push_back({perm[i * C + j], perm[i * C + j + 1]}); }
   for(auto& x : e) if(x[0] > x[1]) std::swap(x[0], x[1]);
   int change = c.choose(4); h.f = e; bool isgrid = change == 0 || (change == 1 && R == 2 && C == 2); /* the square without one edge is a chain, a 1x4 grid */
   if(change == 1) h.f.erase(h.f.begin() + c.choose((int)e.size()));
   if(change == 2) { int a = c.choose(h.n), b = c.choose(h.n); if(a >= b) c.prune(); h.f.push_back({a, b}); }
   if(change == 3) { ++h.n; if(c.flip()) h.f.push_back({c.choose(h.n - 1), h.n - 1}); }
   MC_TRACE(c, str(h)); GM gm; make(gm, h); marray::Matrix<size_t> g; bool gr = gm.isGrid(g);
   c.eq(gr, isgrid, "isGrid"); if(gr) c.check(validGrid(h, g, (int)g.shape(0), (int)g.shape(1)), "grid layout");
   uint64_t hs = h.n; for(auto& f : h.f) hs = mc::mix(hs, f[0] * 20 + f[1]); c.state(hs);
}
MC_SCENARIO("grids/numberings") {
   int which = c.choose(c.tier(4, 5)); int R = which == 0 ? 2 : which == 1 ? 2 : which == 2 ? 3 : which == 3 ? 2 : 3, C = which == 0 ? 2 : which == 1 ? 3 : which == 2 ? 3 : which == 3 ? 4 : 4;
   int n = R * C; std::vector<int> p(n), rest; for(int i = 0; i < n; ++i) rest.push_back(i);
   // choose the positions of the first few numbers freely, the rest ascending or descending
   int fixed = std::min(n, c.tier(3, 5)); std::vector<int> place(n, -1);
   for(int k = 0; k < fixed; ++k) { int i = c.choose((int)rest.size()); place[rest[i]] = k; rest.erase(rest.begin() + i); }
   if(c.flip()) std::reverse(rest.begin(), rest.end()); for(size_t i = 0; i < rest.size(); ++i) place[rest[i]] = fixed + (int)i;
   grids(c, R, C, place);
}

// a ladder of sizes: chains, rings, trees and grids under several numberings, unaries first or last, one edge missing or one more
static int lfind(std::vector<int>& p, int x) { while(p[x] != x) x = p[x] = p[p[x]]; return x; }
static void large(Ctx& c, const H& h, bool wantChain, int grid) {          // grid: 1 yes, 0 no, -1 not asked
   GM gm; make(gm, h); const int n = h.n, m = (int)h.f.size(); std::vector<int> p(n); for(int i = 0; i < n; ++i) p[i] = i; bool acyclic = true; int comps = n; for(auto& f : h.f) for(size_t k = 1; k < f.size(); ++k) { int a = lfind(p, f[0]), b = lfind(p, f[k]); if(a == b) acyclic = false; else { p[a] = b; --comps; } }
   c.eq(gm.isAcyclic(), acyclic, "isAcyclic"); marray::Vector<size_t> rep; c.eq(gm.isConnected(rep), comps == 1, "isConnected"); c.eq((int)rep.size(), comps, "number of representatives"); std::set<int> seen; for(size_t i = 0; i < rep.size(); ++i) { c.check(rep[i] < (size_t)n, "representative"); seen.insert(lfind(p, (int)rep[i])); } c.eq((int)seen.size(), comps, "one representative per component");
   std::vector<std::vector<size_t> > at(n); std::vector<std::set<size_t> > nb(n); for(int f = 0; f < m; ++f) for(int v : h.f[f]) { at[v].push_back(f); for(int w : h.f[f]) if(w != v) nb[v].insert(w); }
   std::vector<std::set<size_t> > vl, fl; gm.variableAdjacencyList(vl); gm.factorAdjacencyList(fl); std::vector<opengm::RandomAccessSet<size_t> > vr; gm.variableAdjacencyList(vr); c.check(vl == nb && vr.size() == nb.size(), "variableAdjacencyList"); for(int v = 0; v < n; ++v) c.check(vr[v].size() == nb[v].size() && std::equal(nb[v].begin(), nb[v].end(), vr[v].begin()), "variableAdjacencyList (random access)");
   marray::Matrix<bool> am; gm.variableAdjacencyMatrix(am); for(int a = 0; a < n; ++a) for(int b = 0; b < n; ++b) c.eq((bool)am(a, b), nb[a].count(b) > 0, "variableAdjacencyMatrix");
   for(int v = 0; v < n; ++v) { c.check(std::vector<size_t>(gm.factorsOfVariableBegin(v), gm.factorsOfVariableEnd(v)) == at[v], "factorsOfVariable range"); for(int b : {0, 1, n / 2, n - 1}) if(b < n) c.eq(gm.variableVariableConnection(v, b), nb[v].count(b) > 0, "variableVariableConnection"); for(size_t k = 0; k <= 3; ++k) { size_t w = 0; for(size_t f : at[v]) w += h.f[f].size() == k; marray::Vector<size_t> ids; c.eq(gm.numberOfNthOrderFactorsOfVariable(v, k, ids), w, "numberOfNthOrderFactorsOfVariable"); c.eq((size_t)ids.size(), w, "list of n-th order factors"); for(size_t i = 0; i < ids.size(); ++i) c.check(ids[i] < (size_t)m && h.f[ids[i]].size() == k && has(h.f[ids[i]], v), "entry of the list of n-th order factors"); } for(size_t f : at[v]) { if(h.f[f].size() == 2) c.eq((int)gm.secondVariableOfSecondOrderFactor(v, f), h.f[f][0] == v ? h.f[f][1] : h.f[f][0], "secondVariableOfSecondOrderFactor"); c.check(gm.variableFactorConnection(v, f) && gm.factorVariableConnection(f, v), "variableFactorConnection"); } for(int f = v % 7; f < m; f += 7) { c.eq(gm.variableFactorConnection(v, f), has(h.f[f], v), "variableFactorConnection"); c.eq(gm.factorVariableConnection(f, v), has(h.f[f], v), "factorVariableConnection"); } }
   for(int f = 0; f < m; ++f) { std::set<size_t> w; for(int v : h.f[f]) for(size_t g : at[v]) if((int)g != f) w.insert(g); c.check(fl[f] == w, "factorAdjacencyList"); for(int g : {0, f / 2, f + 1}) if(g < m && g != f) c.eq(gm.factorFactorConnection(f, g), w.count(g) > 0, "factorFactorConnection"); }
   marray::Vector<size_t> ids; bool ch = gm.isChain(ids); c.eq(ch, wantChain, "isChain"); if(ch) { c.eq((int)ids.size(), n, "length of the chain"); for(int i = 0; i + 1 < n; ++i) c.check(ids[i] < (size_t)n && nb[ids[i]].count(ids[i + 1]), "chain order"); std::set<size_t> q; for(int i = 0; i < n; ++i) q.insert(ids[i]); c.eq((int)q.size(), n, "variables of the chain"); }
   if(grid >= 0) { marray::Matrix<size_t> g; const bool gr = gm.isGrid(g); c.eq(gr, grid == 1, "isGrid"); if(gr) { const int R = (int)g.shape(0), C = (int)g.shape(1); c.eq(R * C, n, "size of the grid"); std::set<size_t> q; for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) { c.check(g(i, j) < (size_t)n, "variable of the grid"); q.insert(g(i, j)); if(i + 1 < R) c.check(nb[g(i, j)].count(g(i + 1, j)), "grid layout"); if(j + 1 < C) c.check(nb[g(i, j)].count(g(i, j + 1)), "grid layout"); } c.eq((int)q.size(), n, "variables of the grid"); } }
   uint64_t hs = n; for(auto& f : h.f) for(int v : f) hs = mc::mix(hs, v); c.state(hs); c.outcome(n); c.step();
}
static int number(int how, int i, int n) { if(how == 0) return i; if(how == 1) return n - 1 - i; int k = how == 2 ? 7 : 11; while(std::__gcd(k, n) != 1) ++k; return (int)(((long)i * k + 3) % n); }
static H laid(Ctx& c, int n, const Scopes& e, int how, int extra) {
   H h; h.n = n; for(auto f : e) { for(int& v : f) v = number(how, v, n); std::sort(f.begin(), f.end()); h.f.push_back(f); } if(extra & 1) for(int i = 0; i < n; ++i) h.f.insert(extra & 2 ? h.f.begin() : h.f.end(), std::vector<int>{i}); return h;
}
MC_SCENARIO("ladder/shapes") { const int n = ladder(c, c.tier(129, 300)), s = c.choose(SHAPES), how = c.choose(4); Scopes e = shapeEdges(s, n); if(s == GRID2 || s == GRID3) c.prune(); const int change = c.choose(3); if(change == 1) { if(e.empty()) c.prune(); e.erase(e.begin() + e.size() / 2); } if(change == 2) { if(n < 3) c.prune(); std::vector<int> x = {n / 3, n - 1}; if(x[0] >= x[1] || std::count(e.begin(), e.end(), x)) c.prune(); e.push_back(x); }
   std::vector<int> deg(n, 0), p(n); int comps = n; for(int i = 0; i < n; ++i) p[i] = i; for(auto& x : e) { ++deg[x[0]]; ++deg[x[1]]; int a = lfind(p, x[0]), b = lfind(p, x[1]); if(a != b) { p[a] = b; --comps; } } const bool chain = comps == 1 && (int)e.size() == n - 1 && *std::max_element(deg.begin(), deg.end()) <= 2; H h = laid(c, n, e, how, c.choose(3)); MC_TRACE(c, n << " variables, shape " << s << " numbering " << how << " change " << change); large(c, h, chain, -1); }
MC_SCENARIO("ladder/grids") { const int R = c.range(1, c.tier(6, 12)), C = c.range(R, c.tier(17, 30)), n = R * C, how = c.choose(4); Scopes e; for(int i = 0; i < R; ++i) for(int j = 0; j < C; ++j) { if(i + 1 < R) e.push_back({i * C + j, (i + 1) * C + j}); if(j + 1 < C) e.push_back({i * C + j, i * C + j + 1}); } const int change = c.choose(3); if(change && R == 1) c.prune(); if(change == 1) { if(n == 4) c.prune(); e.erase(e.begin() + e.size() / 2); } if(change == 2) { auto degrees = [&]() { std::vector<int> d(n, 0); for(auto& x : e) { ++d[x[0]]; ++d[x[1]]; } std::sort(d.begin(), d.end()); return d; }; auto before = degrees(); e[e.size() / 3] = {0, n - 1}; if(degrees() == before) c.prune(); } H h = laid(c, n, e, how, c.choose(3)); MC_TRACE(c, R << "x" << C << " numbering " << how << " change " << change); if(change == 2) { std::vector<int> x = {number(how, 0, n), number(how, n - 1, n)}; std::sort(x.begin(), x.end()); if(std::count(h.f.begin(), h.f.end(), x) > 1 || n == 4) c.prune(); } large(c, h, R == 1 && !change, change == 0); }
MC_SCENARIO("ladder/high orders") { const int n = c.range(3, c.tier(20, 40)), o = c.range(3, n), k = c.range(1, 4), step = c.range(1, 3); H h; h.n = n; for(int i = 0; i < k; ++i) { std::set<int> v; for(int j = 0; j < o; ++j) v.insert((i * o + j * step) % n); if(v.size() < 3) c.prune(); h.f.push_back(std::vector<int>(v.begin(), v.end())); } if(c.flip()) h.f.push_back({n - 2, n - 1}); MC_TRACE(c, str(h)); bool chain = false; large(c, h, chain, -1); }
