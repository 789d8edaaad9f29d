// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
// C01 over a ladder of sizes: many variables, many functions, many factors at one variable, high orders, large label counts.
#include "ladder.hxx"
#include <opengm/functions/potts.hxx>
#include <opengm/functions/sparsemarray.hxx>
#include <opengm/graphicalmodel/graphicalmodel_explicit_storage.hxx>
typedef opengm::ExplicitFunction<double> E; typedef opengm::PottsFunction<double> P; typedef opengm::SparseFunction<double, size_t, size_t> S;
typedef opengm::GraphicalModel<double, opengm::Adder, OPENGM_TYPELIST_3(E, P, S), opengm::DiscreteSpace<size_t, size_t> > A;
typedef opengm::ExplicitFunction<float, unsigned short, unsigned char> EN;
typedef opengm::GraphicalModel<float, opengm::Adder, OPENGM_TYPELIST_1(EN), opengm::DiscreteSpace<unsigned short, unsigned char> > N;
template<class GM> static void compare(mc::Ctx& c, const GM& gm, const RefModel& r, double tol, const std::vector<std::vector<int> >& labs) {
   c.eq((size_t)gm.numberOfVariables(), r.L.size(), "numberOfVariables"); c.eq((size_t)gm.numberOfFactors(), r.f.size(), "numberOfFactors"); size_t order = 0; int most = 0;
   for(size_t i = 0; i < r.L.size(); ++i) { c.eq((int)gm.numberOfLabels(i), r.L[i], "numberOfLabels"); most = std::max(most, r.L[i]); } c.eq((int)gm.maxNumberOfLabels(), most, "maxNumberOfLabels");
   std::vector<std::vector<int> > at(r.L.size());
   for(size_t i = 0; i < r.f.size(); ++i) { const RefFactor& f = r.f[i]; order = std::max(order, f.v.size()); c.eq((size_t)gm[i].numberOfVariables(), f.v.size(), "factor order"); c.eq((size_t)gm[i].size(), f.t.size(), "factor size"); for(size_t k = 0; k < f.v.size(); ++k) { c.eq((int)gm[i].variableIndex(k), f.v[k], "variable of factor"); c.eq((int)gm.variableOfFactor(i, k), f.v[k], "variableOfFactor"); c.eq((int)gm[i].numberOfLabels(k), r.L[f.v[k]], "labels of factor"); at[f.v[k]].push_back((int)i); } }
   c.eq((size_t)gm.factorOrder(), order, "factorOrder");
   for(size_t v = 0; v < at.size(); ++v) { c.eq((size_t)gm.numberOfFactors(v), at[v].size(), "numberOfFactors(variable)"); for(size_t k = 0; k < at[v].size(); ++k) c.eq((int)gm.factorOfVariable(v, k), at[v][k], "factorOfVariable"); }
   std::vector<int> sub; for(const std::vector<int>& x : labs) { double e = 0; for(size_t i = 0; i < r.f.size(); ++i) { const double w = r.factorValue((int)i, x); e += w; sub.assign(r.f[i].v.size() + 1, 0); for(size_t k = 0; k < r.f[i].v.size(); ++k) sub[k] = x[r.f[i].v[k]]; c.eq((double)gm[i](sub.begin()), w, "factor value"); } std::vector<int> y(x); y.push_back(0); c.near((double)gm.evaluate(y.begin()), e, tol * (1 + std::fabs(e)), "evaluate"); }
}
template<class GM> static typename GM::FunctionIdentifier put(GM& gm, const RefModel& r, const RefFactor& f, bool shared = false) {
   typedef opengm::ExplicitFunction<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType> X; std::vector<typename GM::LabelType> sh; for(int v : f.v) sh.push_back(r.L[v]); X x = sh.empty() ? X((typename GM::ValueType)f.t[0]) : X(sh.begin(), sh.end()); if(!sh.empty()) for(size_t k = 0; k < f.t.size(); ++k) x(k) = f.t[k]; return shared ? gm.addSharedFunction(x) : gm.addFunction(x);
}
// how the model is put together: one by one, in bulk, reserved, from one variable on, shared
template<class GM> static GM together(const RefModel& r, int way) {
   GM gm; if(way == 3) for(int l : r.L) gm.addVariable(l); else gm = GM(typename GM::SpaceType(r.L.begin(), r.L.end())); if(way == 2) { gm.reserveFactors(r.f.size()); gm.reserveFactorsVarialbeIndices(2 * r.f.size()); gm.template reserveFunctions<opengm::ExplicitFunction<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType> >(r.f.size()); }
   std::vector<typename GM::FunctionIdentifier> id; if(way == 1) for(auto& f : r.f) id.push_back(put(gm, r, f)); for(size_t i = 0; i < r.f.size(); ++i) { auto q = way == 1 ? id[i] : put(gm, r, r.f[i], way == 4); if(way == 1 || way == 2) gm.addFactorNonFinalized(q, r.f[i].v.begin(), r.f[i].v.end()); else gm.addFactor(q, r.f[i].v.begin(), r.f[i].v.end()); } if(way == 1 || way == 2) gm.finalize(); return gm;
}
MC_SCENARIO("ladder/variables") {
   const int n = ladder(c, 1025), s = c.choose(SHAPES), way = c.choose(5); if(way == 4 && n > 130) c.prune(); RefModel r = ladderModel(s, n, {2, 3, 1, 2, 5}, 0, true, c.flip()); c.state(mc::mix(r.hash(), way)); c.step(); MC_TRACE(c, "n " << n << " shape " << s << " way " << way); const auto labs = someLabelings(r);
   A a = together<A>(r, way); compare(c, a, r, 1e-12, labs); { A b(a), d; d = b; b.addVariable(4); compare(c, d, r, 1e-12, {labs[1]}); } compare(c, a, r, 1e-12, {labs[3]}); A e = together<A>(ladderModel(STAR, 3, {2}, 0), 0); e = a; compare(c, e, r, 1e-12, {labs[4]}); opengm::ExplicitStorage<A> st(a); for(size_t i = 0; i < r.f.size(); ++i) for(size_t k = 0; k < r.f[i].t.size(); ++k) c.eq(st[a[i]][k], r.f[i].t[k], "explicit storage"); c.outcome(n);
}
MC_SCENARIO("ladder/narrow types") { const int n = ladder(c, 1025), s = c.choose(SHAPES), way = c.choose(5); if(way == 4 && n > 130) c.prune(); RefModel r = ladderModel(s, n, {2, 3, 4}, 0); c.state(r.hash()); c.step(); MC_TRACE(c, "n " << n << " shape " << s << " way " << way); N a = together<N>(r, way); compare(c, a, r, 1e-4, someLabelings(r)); c.outcome(n); }
// label counts up to 255 (or 1025) at one, two or three variables of a factor
MC_SCENARIO("ladder/labels") { const int l = ladder(c, 1025), k = c.choose(4); RefModel r; r.L = {2, l, 3, l}; const std::vector<Scopes> s = {{{1}, {1, 2}}, {{0, 1}, {1}}, {{0, 1, 2}, {1, 2}}, {{1, 3}, {3}, {2, 3}}}; if(k == 3 && l > 300) c.prune(); r = fixedModel(r.L, s[k]); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, 0); c.state(r.hash()); c.step(); MC_TRACE(c, "labels " << l << " " << k); std::vector<std::vector<int> > labs; for(int x = 0; x < l; ++x) labs.push_back({x % 2, x, x % 3, l - 1 - x}); A a = together<A>(r, c.choose(5)); compare(c, a, r, 1e-12, labs); if(l <= 255) { N b = together<N>(r, 0); compare(c, b, r, 1e-4, labs); } c.outcome(l); }
// one factor of a high order (every labeling), on the first, last or spread variables
MC_SCENARIO("ladder/orders") { const int o = c.range(0, 13), where = c.choose(3), n = 2 * o + 1; RefModel r; for(int i = 0; i < n; ++i) r.L.push_back(o <= 7 ? 1 + (i + 1) % 3 : 2); RefFactor f; for(int i = 0; i < o; ++i) f.v.push_back(where == 0 ? i : where == 1 ? n - o + i : 2 * i + 1); r.f = {f, f}; r.f.push_back(RefFactor{{n / 2}, {}}); for(int i = 0; i < 3; ++i) fillPattern(r, i, i % 2); c.state(r.hash()); c.step(); MC_TRACE(c, "order " << o << " " << where); std::vector<std::vector<int> > labs; std::vector<int> x(n, 0); for(size_t k = 0; k < r.f[0].t.size(); ++k) { size_t q = k; for(int v : f.v) { x[v] = (int)(q % r.L[v]); q /= r.L[v]; } labs.push_back(x); } const int way = c.choose(5); if(way == 4) { A a(A::SpaceType(r.L.begin(), r.L.end())); auto i0 = put(a, r, r.f[0], true); for(int k = 0; k < 2; ++k) a.addFactor(i0, f.v.begin(), f.v.end()); r.f[1].t = r.f[0].t; a.addFactor(put(a, r, r.f[2], true), r.f[2].v.begin(), r.f[2].v.end()); compare(c, a, r, 1e-9, labs); return; } A a = together<A>(r, way); compare(c, a, r, 1e-9, labs); N b = together<N>(r, way); compare(c, b, r, 1e-3, labs); c.outcome(o); }
// many shared functions of each type: k different ones, added again in the same, the opposite and a scattered order
MC_SCENARIO("ladder/shared") { const int k = ladder(c, 129), type = c.choose(3), again = c.choose(3); c.state(k * 16 + type * 4 + again); c.step(); MC_TRACE(c, k << " functions of type " << type << " again " << again); A a; for(int i = 0; i < 3; ++i) a.addVariable(3);
   std::vector<A::FunctionIdentifier> id; auto add = [&](int i) { if(type == 0) { size_t sh[2] = {3, 3}; E f(sh, sh + 2, 0.5); f(8) = i * 2e-6; f(3) = i % 7; return a.addSharedFunction(f); } if(type == 1) { P f(3, 3, i % 5, i * 2e-6); return a.addSharedFunction(f); } size_t sh[2] = {3, 3}; S f(sh, sh + 2, 1.0); size_t x[2] = {(size_t)(i % 3), 2}; f.insert(x, 5 + i * 2e-6); return a.addSharedFunction(f); };
   for(int i = 0; i < k; ++i) id.push_back(add(i)); const int t = id[0].getFunctionType(); c.eq((int)a.numberOfFunctions(t), k, "functions that differ are not merged"); for(int i = 0; i < k; ++i) { const int j = again == 0 ? i : again == 1 ? k - 1 - i : (i * 7 + 3) % k; auto q = add(j); c.check(q == id[j], "the same function again gives the same identifier"); } c.eq((int)a.numberOfFunctions(t), k, "the same functions are stored once"); std::vector<int> v = {0, 2}; for(int i = 0; i < k; ++i) a.addFactor(id[i], v.begin(), v.end());
   for(int i = 0; i < k; ++i) for(int x = 0; x < 3; ++x) for(int y = 0; y < 3; ++y) { size_t l[2] = {(size_t)x, (size_t)y}; const double w = type == 0 ? (x + 3 * y == 8 ? i * 2e-6 : x + 3 * y == 3 ? i % 7 : 0.5) : type == 1 ? (x == y ? i % 5 : i * 2e-6) : (x == i % 3 && y == 2 ? 5 + i * 2e-6 : 1.0); c.eq((double)a[i](l), w, "value of a factor with a shared function"); } c.outcome(k); }
