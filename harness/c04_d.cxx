// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c04_summaries.hxx"
// factors (through a model that knows every function type) and independent factors made from them
typedef Fn<double, size_t, size_t> N;
typedef opengm::meta::TypeListGenerator<N::E, N::S, N::C, N::P, N::PN, N::PG, N::AD, N::SD, N::TAD, N::TSD, N::FOE>::type Types;
typedef opengm::GraphicalModel<double, opengm::Adder, Types, opengm::DiscreteSpace<size_t, size_t> > GM;
struct Touch { size_t n; double s; std::vector<size_t> vi; template<class F> void operator()(const F& f) { n = f.size(); s = (double)f.sum(); } template<class VI, class F> void operator()(const VI vi0, const VI vi1, const F& f) { vi.assign(vi0, vi1); n = f.size(); } };
template<class V> static void rest(Ctx& c, const V& fac, Tab t, const std::vector<size_t>& vis, bool pottsG) {
   RefSum r(t); extrema(c, fac, r, 1e-9); { Rec q; fac.forAllValuesInOrder(q); c.check(q.v == t.v, "factor forAllValuesInOrder"); } { Rec q; fac.forAllValuesInSwitchedOrder(q); c.check(q.v == switched(t), "factor forAllValuesInSwitchedOrder"); }
   { Rec q; fac.forAllValuesInAnyOrder(q); c.check(sorted(q.v) == sorted(t.v), "factor forAllValuesInAnyOrder"); } { Rec q; fac.forAtLeastAllUniqueValues(q); c.check(setOf(q.v) == setOf(t.v), "factor forAtLeastAllUniqueValues"); }
   predicates(c, fac, t, pottsG && fewLabels(t));
   std::vector<double> out(t.v.size()); fac.copyValues(out.begin()); c.check(out == t.v, "copyValues"); fac.copyValuesSwitchedOrder(out.begin()); c.check(out == switched(t), "copyValuesSwitchedOrder");
   c.near(fac.template valueProperty<opengm::ValueProperties::Minimum>(), r.mn, 0, "valueProperty<Min>"); c.near(fac.template valueProperty<opengm::ValueProperties::Maximum>(), r.mx, 0, "valueProperty<Max>"); c.near(fac.template valueProperty<opengm::ValueProperties::Sum>(), r.sum, 1e-9, "valueProperty<Sum>"); c.near(fac.template valueProperty<opengm::ValueProperties::Product>(), r.prod, 1e-9 * std::max(1.0, std::fabs(r.prod)), "valueProperty<Product>");
   if(t.sh.size() >= 2 && t.v.size() > 1) c.eq((bool)fac.template binaryProperty<opengm::BinaryProperties::IsPotts>(), refPotts(t), "binaryProperty<IsPotts>");
   { Touch q; fac.callFunctor(q); c.eq(q.n, t.v.size(), "callFunctor size"); c.near(q.s, r.sum, 1e-9, "callFunctor sum"); } { Touch q; fac.callViFunctor(q); c.check(q.vi == vis && q.n == t.v.size(), "callViFunctor"); }
   c.eq((size_t)fac.size(), t.v.size(), "size"); c.eq((size_t)fac.numberOfVariables(), vis.size(), "number of variables"); Co s(fac.shapeBegin(), fac.shapeEnd()); c.check(s == t.sh, "shape range"); std::vector<size_t> v(fac.variableIndicesBegin(), fac.variableIndicesEnd()); c.check(v == vis, "variable range"); std::vector<size_t> w(vis.size()); fac.variableIndices(w.begin()); c.check(w == vis, "variableIndices");
   for(size_t d = 0; d < vis.size(); ++d) { c.eq((size_t)fac.numberOfLabels(d), t.sh[d], "numberOfLabels"); c.eq((size_t)fac.shape(d), t.sh[d], "shape"); c.eq((size_t)fac.variableIndex(d), vis[d], "variableIndex"); }
}
template<class F> static void independent(Ctx& c, F& g, const Tab& t, const std::vector<size_t>& vis) {
   extrema(c, g, RefSum(t), 1e-9); predicates(c, g, t, false); c.eq((size_t)g.size(), t.v.size(), "independent size"); c.eq((size_t)g.numberOfVariables(), vis.size(), "independent number of variables");
   Co s(g.shapeBegin(), g.shapeEnd()); c.check(s == t.sh, "independent shape range"); std::vector<size_t> v(g.variableIndicesBegin(), g.variableIndicesEnd()); c.check(v == vis, "independent variable range"); std::vector<size_t> w(vis.size()); g.variableIndices(w.begin()); c.check(w == vis, "independent variableIndices");
   for(size_t k = 0; k < t.v.size(); ++k) { Co x = t.co(k); x.push_back(0); c.near((double)g(x.begin()), t.v[k], 0, "independent value"); const F& q = g; c.near((double)q(x.begin()), t.v[k], 0, "independent value (const)");
      if(vis.size() == 1) c.near((double)q(x[0]), t.v[k], 0, "value (1)"); if(vis.size() == 2) c.near((double)q(x[0], x[1]), t.v[k], 0, "value (2)"); if(vis.size() == 3) c.near((double)q(x[0], x[1], x[2]), t.v[k], 0, "value (3)"); if(vis.size() == 4) c.near((double)q(x[0], x[1], x[2], x[3]), t.v[k], 0, "value (4)"); }
   for(size_t d = 0; d < vis.size(); ++d) { c.eq((size_t)g.numberOfLabels(d), t.sh[d], "independent numberOfLabels"); c.eq((size_t)g.shape(d), t.sh[d], "independent shape"); c.eq((size_t)g.variableIndex(d), vis[d], "independent variableIndex"); }
}
template<class F, bool DS> struct Add { static GM::FunctionIdentifier go(GM& gm, const F& f) { return gm.addFunction(f); } };
MC_SCENARIO("factors") {
   int fam = c.pick(std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12});
   family<double, size_t, size_t>(c, fam, c.tier(2, 4), c.tier(3, 5), [&](const auto& f, Tab t) {
      typedef typename std::decay<decltype(f)>::type A; if constexpr(!std::is_same<A, N::SSS>::value && !std::is_same<A, N::SSH>::value) {
      if(t.v.size() > 40 && !c.thorough) c.prune();
      std::vector<size_t> labels; std::vector<size_t> vis; int skip = c.choose(2); for(size_t s : t.sh) { if(skip) labels.push_back(5); vis.push_back(labels.size()); labels.push_back(s); } labels.push_back(2);
      for(size_t k = 0; k < t.v.size(); ++k) { Co x = t.co(k); x.push_back(0); t.v[k] = (double)f(x.begin()); }
      GM gm(opengm::DiscreteSpace<size_t, size_t>(labels.begin(), labels.end())); Co one(1, 2); N::E filler(one.begin(), one.end(), 7.0); size_t last = labels.size() - 1; GM::FunctionIdentifier id0 = gm.addFunction(filler); gm.addFactor(id0, &last, &last + 1);
      GM::FunctionIdentifier id = gm.addFunction(f); gm.addFactor(id, vis.begin(), vis.end()); gm.addFactor(id0, &last, &last + 1);
      rest(c, gm[1], t, vis, fam == 5); c.state(t.hash());
      GM::FactorType cp(gm[1]); rest(c, cp, t, vis, fam == 5); GM::FactorType as; as = cp; rest(c, as, t, vis, fam == 5);
      GM::IndependentFactorType g(gm[1]), h; independent(c, g, t, vis); h = gm[1]; independent(c, h, t, vis); h = g; independent(c, h, t, vis); GM::IndependentFactorType m(gm[0]); m = gm[1]; independent(c, m, t, vis);
      }
   });
}
