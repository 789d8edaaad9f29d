// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -fsanitize=address -fno-sanitize-recover=all
// C22: every decomposition of every small factor graph, taken apart and put together again.
#include "models.hxx"
#include <map>
#include <opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx>
typedef GmOf<double, opengm::Adder>::type GM; typedef opengm::GraphicalModelDecomposer<GM> Dec; typedef opengm::GraphicalModelDecomposition D;
struct Sub { std::vector<int> var; std::vector<std::pair<int, std::vector<int> > > f; std::vector<std::vector<int> > added; };   // per sub-variable its variable; factors with sub-variables; added unary terms
struct Parts {
   std::vector<Sub> sub; std::vector<int> occurrences;
   // reads the decomposition and checks that it is a consistent mapping
   Parts(mc::Ctx& c, const RefModel& r, const D& d, bool all) {
      const int n = (int)r.L.size(), F = (int)r.f.size(); c.eq((int)d.getVariableLists().size(), n, "one list of sub-variables per variable"); c.eq((int)d.getFactorLists().size(), F, "one list of sub-factors per factor"); sub.resize(d.numberOfSubModels()); std::vector<std::set<int> > ids(sub.size());
      for(size_t s = 0; s < sub.size(); ++s) sub[s].var.assign(d.numberOfSubVariables(s), -1);
      for(int v = 0; v < n; ++v) { int k = 0; for(auto& x : d.getVariableLists()[v]) { c.check(x.subModelId_ < sub.size(), "the sub-model of a sub-variable exists"); auto& var = sub[x.subModelId_].var; c.check(x.subVariableId_ < var.size(), "the index of a sub-variable is in range"); c.eq(var[x.subVariableId_], -1, "a sub-variable belongs to one variable"); var[x.subVariableId_] = v; ++k; } if(all) c.check(k > 0, "every variable is part of some sub-model"); }
      for(auto& s : sub) { for(size_t i = 0; i < s.var.size(); ++i) c.check(s.var[i] >= 0, "every sub-variable belongs to a variable"); for(size_t i = 1; i < s.var.size(); ++i) c.check(s.var[i - 1] <= s.var[i], "variables keep their order in a sub-model"); }
      for(int f = 0; f < F; ++f) {
         occurrences.push_back((int)d.getFactorLists()[f].size()); if(all) c.check(occurrences.back() > 0, "every factor is part of some sub-model");
         for(auto& x : d.getFactorLists()[f]) { c.check(x.subModelId_ < sub.size(), "the sub-model of a sub-factor exists"); c.check(x.subFactorId_ < d.numberOfSubFactors(x.subModelId_) && ids[x.subModelId_].insert((int)x.subFactorId_).second, "sub-factors are numbered consistently"); indices(c, x, r.f[f].v); sub[x.subModelId_].f.push_back(std::make_pair(f, toInt(x.subIndices_))); }
      }
      for(auto& e : d.getEmptyFactorLists()) for(auto& x : e.second) { indices(c, x, toInt(e.first)); sub[x.subModelId_].added.push_back(toInt(x.subIndices_)); }
      for(size_t s = 0; s < sub.size(); ++s) c.eq(d.numberOfSubFactors(s), sub[s].f.size() + sub[s].added.size(), "number of factors of a sub-model");
   }
   void indices(mc::Ctx& c, const D::SubFactor& x, const std::vector<int>& v) { c.eq(x.subIndices_.size(), v.size(), "a sub-factor has the order of its factor"); for(size_t j = 0; j < v.size(); ++j) { c.check(x.subIndices_[j] < sub[x.subModelId_].var.size(), "the variable of a sub-factor exists"); c.eq(sub[x.subModelId_].var[x.subIndices_[j]], v[j], "a sub-factor depends on the variables of its factor"); if(j) c.check(x.subIndices_[j - 1] < x.subIndices_[j], "variables of a sub-factor are in order"); } }
   RefModel model(const RefModel& r, size_t s) const { RefModel m; for(int v : sub[s].var) m.L.push_back(r.L[v]); for(auto& x : sub[s].f) { RefFactor f; f.v = x.second; f.t = r.f[x.first].t; for(double& t : f.t) t /= occurrences[x.first]; m.f.push_back(f); } return m; }
   bool forest(const RefModel& r, size_t s) const { return refAcyclic(model(r, s)); }
   // the sub-models add up to the model
   void energy(mc::Ctx& c, const RefModel& r) const { std::vector<RefModel> ms; for(size_t s = 0; s < sub.size(); ++s) ms.push_back(model(r, s)); std::vector<int> lab(r.L.size(), 0); do { double e = 0; for(size_t s = 0; s < sub.size(); ++s) { std::vector<int> l; for(int v : sub[s].var) l.push_back(lab[v]); e += ms[s].eval(l); } c.near(e, r.eval(lab), 1e-9, "the sub-models add up to the model"); } while(r.next(lab)); }
   uint64_t hash() const { uint64_t h = sub.size(); for(auto& s : sub) { h = mc::mix(h, s.var.size()); for(int v : s.var) h = mc::mix(h, v); for(auto& x : s.f) { h = mc::mix(h, x.first + 40); for(int v : x.second) h = mc::mix(h, v); } for(auto& x : s.added) h = mc::mix(h, x[0] + 80); } return h; }
   std::vector<int> factors(size_t s) const { std::vector<int> q; for(auto& x : sub[s].f) q.push_back(x.first); std::sort(q.begin(), q.end()); return q; }
   std::vector<int> variables(size_t s) const { return sub[s].var; }
};
// adding unary terms to copied variables keeps everything else; doing it or sorting again changes nothing
static void finish(mc::Ctx& c, const RefModel& r, const GM& gm, D d, bool all, const Parts& before) {
   c.outcome(before.hash()); c.eq(d.isValid(gm), all, "a complete decomposition is valid, an incomplete one is not"); if(c.flip()) { d.reorder(); c.eq(Parts(c, r, d, all).hash(), before.hash(), "sorting an ordered decomposition changes nothing"); }
   d.complete(); Parts p(c, r, d, all); if(all) p.energy(c, r); c.eq(d.isValid(gm), all, "a completed decomposition is as valid as before"); c.eq(p.sub.size(), before.sub.size(), "completing adds no sub-model");
   for(size_t s = 0; s < p.sub.size(); ++s) { c.check(p.sub[s].var == before.sub[s].var, "completing adds no variables"); for(auto& x : before.sub[s].f) c.check(std::count(p.sub[s].f.begin(), p.sub[s].f.end(), x) >= 1, "completing keeps all factors"); for(auto& x : p.sub[s].f) c.check(x.second.size() == 1 || std::count(before.sub[s].f.begin(), before.sub[s].f.end(), x), "completing adds unary factors only"); if(before.forest(r, s)) c.check(p.forest(r, s), "completing creates no cycle"); }
   for(int v = 0; v < (int)r.L.size(); ++v) {
      std::vector<std::pair<int, int> > copies; for(size_t s = 0; s < p.sub.size(); ++s) for(size_t i = 0; i < p.sub[s].var.size(); ++i) if(p.sub[s].var[i] == v) copies.push_back(std::make_pair((int)s, (int)i)); if(copies.size() < 2) { for(auto& k : copies) for(auto& x : p.sub[k.first].added) c.check(x[0] != k.second, "nothing is added for a variable without copies"); continue; }
      // one and the same unary term at all copies: a factor of the model or an added one
      bool common = false; for(int f = 0; f < (int)r.f.size(); ++f) if(r.f[f].v == std::vector<int>(1, v)) { bool everywhere = true; for(auto& k : copies) { int m = 0; for(auto& x : p.sub[k.first].f) if(x.first == f && x.second[0] == k.second) ++m; everywhere = everywhere && m == 1; } common = common || everywhere; }
      if(!common) { for(auto& k : copies) { int m = 0; for(auto& x : p.sub[k.first].added) if(x.size() == 1 && x[0] == k.second) ++m; c.eq(m, 1, "all copies of a variable have a unary term in common"); } } else for(auto& k : copies) for(auto& x : p.sub[k.first].added) c.check(x[0] != k.second, "nothing is added where a unary factor is shared");
   }
   uint64_t h = p.hash(); d.complete(); c.eq(Parts(c, r, d, all).hash(), h, "completing again changes nothing"); d.reorder(); c.eq(Parts(c, r, d, all).hash(), h, "sorting a completed decomposition changes nothing"); D e(d), g; g = e; c.eq(Parts(c, r, g, all).hash(), h, "a copy is the same decomposition");
}
static RefModel graph(mc::Ctx& c, int n, int k, int maxOrder, bool rotate) { RefModel r = anyModel(c, n, {2}, k, 0, maxOrder, 1, rotate); for(size_t i = 0; i < r.L.size(); i += 2) if(r.L.size() > 1) { r.L[i] = 3; } for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, 0); return r; }
static RefModel anyGraph(mc::Ctx& c, int maxOrder) { int n = c.range(1, c.tier(3, 4)); return graph(c, n, c.range(0, n < 3 ? 4 : n == 3 ? c.tier(3, 4) : 3), maxOrder, true); }
// larger graphs over pairs, rotated
static RefModel pairs(mc::Ctx& c) { int n = c.tier(4, 5); RefModel r; r.L.assign(n, 2); for(auto& v : allScopes(n, 2, 2)) if(c.flip()) { RefFactor f; f.v = v; r.f.push_back(f); } int u = c.choose(4); if(u & 1) { RefFactor f; f.v = {1}; r.f.push_back(f); } if(u & 2) { RefFactor f; f.v = {n - 1}; r.f.insert(r.f.begin(), f); f.v = {}; r.f.push_back(f); } if(r.f.size() > 1 && c.flip()) std::reverse(r.f.begin(), r.f.end()); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, 0); return r; }
static void trees(mc::Ctx& c, const RefModel& r) {
   GM gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str()); c.step();
   if(c.flip()) { D d = Dec().decomposeIntoTree(gm); Parts p(c, r, d, true); p.energy(c, r); c.eq(p.sub.size(), (size_t)1, "one tree"); c.check(p.forest(r, 0), "the tree has no cycle"); for(int o : p.occurrences) c.eq(o, 1, "every factor is in the tree once"); if(refAcyclic(r)) c.eq(p.sub[0].var.size(), r.L.size(), "an acyclic model needs no copies"); finish(c, r, gm, d, true, p); }
   else { D d = Dec().decomposeIntoSpanningTrees(gm); Parts p(c, r, d, true); p.energy(c, r); for(size_t s = 0; s < p.sub.size(); ++s) { c.check(p.forest(r, s), "a spanning tree has no cycle"); c.eq(p.sub[s].var.size(), r.L.size(), "a spanning tree has every variable once"); for(size_t i = 0; i < r.L.size(); ++i) c.eq(p.sub[s].var[i], (int)i, "a spanning tree has every variable once"); } if(refAcyclic(r) ) c.eq(p.sub.size(), (size_t)1, "an acyclic model is one tree"); finish(c, r, gm, d, true, p); }
}
MC_SCENARIO("trees/structures") { trees(c, anyGraph(c, 3)); }
MC_SCENARIO("trees/pairs") { trees(c, pairs(c)); }
MC_SCENARIO("trees/four") { trees(c, graph(c, 4, c.range(2, c.tier(3, 4)), 4, false)); }
static std::set<int> inside(mc::Ctx& c, int n) { std::set<int> s; int m = 1 + c.choose((1 << n) - 1); for(int i = 0; i < n; ++i) if(m >> i & 1) s.insert(i); return s; }
static std::vector<std::set<size_t> > sets(const std::vector<std::set<int> >& q) { std::vector<std::set<size_t> > r; for(auto& x : q) r.push_back(std::set<size_t>(x.begin(), x.end())); return r; }
static void blocks(mc::Ctx& c, const RefModel& r, int maxBlocks) {
   GM gm; build(gm, r); const int n = (int)r.L.size(); c.state(r.hash()); MC_TRACE(c, r.str()); std::vector<std::set<int> > in; D d; int kind = c.choose(2); bool byNumber = kind == 1 && c.flip();
   if(byNumber) { int k = c.range(1, n + 1); d = Dec().decomposeIntoClosedBlocks(gm, (size_t)k); } else { for(int k = c.range(1, maxBlocks); k > 0; --k) in.push_back(inside(c, n)); d = kind ? Dec().decomposeIntoClosedBlocks(gm, sets(in)) : Dec().decomposeIntoOpenBlocks(gm, sets(in)); } c.step();
   if(byNumber) { Parts p(c, r, d, true); p.energy(c, r); finish(c, r, gm, d, true, p); return; }
   Parts p(c, r, d, false); bool all = true; std::vector<int> seenV(n, 0), seenF(r.f.size(), 0); c.eq(p.sub.size(), in.size(), "one sub-model per block");
   for(size_t s = 0; s < in.size(); ++s) {
      std::vector<int> F, V; std::set<int> vs = in[s]; for(int f = 0; f < (int)r.f.size(); ++f) { int k = 0; for(int v : r.f[f].v) k += (int)in[s].count(v); if(kind ? k > 0 || r.f[f].v.empty() : k == (int)r.f[f].v.size()) { F.push_back(f); seenF[f] = 1; if(kind) vs.insert(r.f[f].v.begin(), r.f[f].v.end()); } } V.assign(vs.begin(), vs.end()); for(int v : V) seenV[v] = 1;
      c.check(p.factors(s) == F, kind ? "a closed block has every factor that touches it" : "an open block has every factor inside it"); c.check(p.variables(s) == V, kind ? "a closed block has its variables and their neighbours" : "an open block has its variables");
   }
   for(int x : seenV) all = all && x; for(int x : seenF) all = all && x; if(all) p.energy(c, r); finish(c, r, gm, d, all, p);
}
MC_SCENARIO("blocks/structures") { RefModel r = anyGraph(c, 3); blocks(c, r, r.L.size() < 3 || c.thorough ? 2 : 2); }
MC_SCENARIO("blocks/pairs") { blocks(c, pairs(c), c.tier(1, 1)); }
MC_SCENARIO("blocks/three") { static const Scopes st[] = {{{0, 1}, {1, 2}, {}, {2}}, {{0, 1, 2}, {0}, {0, 2}}, {{0, 1}, {1, 2}, {0, 2}, {2, 3}}}; int q = c.choose(3); RefModel r = fixedModel(q == 2 ? std::vector<int>{2, 2, 2, 2} : std::vector<int>{2, 3, 2}, st[q]); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, 0); blocks(c, r, 3); }
static void fans(mc::Ctx& c, const RefModel& r, int maxFans) {
   GM gm; build(gm, r); const int n = (int)r.L.size(); c.state(r.hash()); MC_TRACE(c, r.str()); std::vector<std::set<int> > in; D d; c.step();
   if(c.flip()) { int k = c.range(1, n + 1); d = Dec().decomposeIntoKFans(gm, (size_t)k); Parts p(c, r, d, true); p.energy(c, r); c.eq((int)p.sub.size(), (n + k - 1) / k, "number of fans"); finish(c, r, gm, d, true, p); return; }
   for(int k = c.range(1, maxFans); k > 0; --k) in.push_back(inside(c, n)); d = Dec().decomposeIntoKFans(gm, sets(in)); Parts p(c, r, d, false); c.eq(p.sub.size(), in.size(), "one sub-model per fan"); bool all = true; std::vector<int> seenV(n, 0), seenF(r.f.size(), 0);
   for(size_t s = 0; s < in.size(); ++s) {
      std::set<int> vs = in[s]; for(auto& f : r.f) { int k = 0; for(int v : f.v) k += (int)in[s].count(v); if(k) vs.insert(f.v.begin(), f.v.end()); }
      std::vector<int> V(vs.begin(), vs.end()), F; for(int f = 0; f < (int)r.f.size(); ++f) { auto& v = r.f[f].v; bool take = v.empty() ? s == 0 : v.size() == 1 ? vs.count(v[0]) > 0 : in[s].count(v[0]) || in[s].count(v[1]); if(take) { F.push_back(f); seenF[f] = 1; } } for(int v : V) seenV[v] = 1;
      c.check(p.factors(s) == F, "a fan has the pairs that touch its inner variables and the unary factors of its variables"); c.check(p.variables(s) == V, "a fan has its inner variables and their neighbours");
   }
   for(int x : seenV) all = all && x; for(int x : seenF) all = all && x; if(all) p.energy(c, r); finish(c, r, gm, d, all, p);
}
MC_SCENARIO("fans/structures") { fans(c, anyGraph(c, 2), 2); }
MC_SCENARIO("fans/pairs") { fans(c, pairs(c), 1); }
// every assignment of factors to two or three sub-models, in any order, also repeated
MC_SCENARIO("manual") {
   RefModel r = graph(c, c.range(1, 3), c.range(1, c.tier(3, 3)), 3, false); GM gm; build(gm, r); const int F = (int)r.f.size(); c.state(r.hash()); int S = c.range(1, F < 3 ? 3 : 2); std::vector<std::vector<size_t> > lists(S);
   for(auto& l : lists) { int m = c.choose(1 << F); for(int f = 0; f < F; ++f) if(m >> f & 1) l.push_back(f); if(l.size() > 1) { int q = c.choose((int)l.size() == 3 ? 6 : 2); for(; q > 0; --q) std::next_permutation(l.begin(), l.end()); } } MC_TRACE(c, r.str()); c.step();
   D d = Dec().decomposeManual(gm, lists); Parts p(c, r, d, false); bool all = true; std::vector<int> seenV(r.L.size(), 0), seenF(F, 0); c.eq((int)p.sub.size(), S, "one sub-model per list");
   for(int s = 0; s < S; ++s) { std::vector<int> want = toInt(lists[s]); std::sort(want.begin(), want.end()); std::set<int> vs; for(int f : want) { seenF[f] = 1; vs.insert(r.f[f].v.begin(), r.f[f].v.end()); } for(int v : vs) seenV[v] = 1; c.check(p.factors(s) == want, "a sub-model has the listed factors"); c.check(p.variables(s) == std::vector<int>(vs.begin(), vs.end()), "a sub-model has the variables of its factors"); }
   for(int x : seenV) all = all && x; for(int x : seenF) all = all && x; if(all) p.energy(c, r); finish(c, r, gm, d, all, p);
}
