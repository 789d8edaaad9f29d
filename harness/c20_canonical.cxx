// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -Wno-deprecated-declarations
// C20: the canonical view of every small model.
#include "models.hxx"
#include <map>
#include <opengm/utilities/canonical_view.hxx>
#include <opengm/functions/potts.hxx>
template<class OP> struct Model { typedef opengm::GraphicalModel<double, OP, typename opengm::meta::TypeListGenerator<opengm::ExplicitFunction<double>, opengm::PottsFunction<double> >::type> type; };
// factors may share functions, two-variable ones may be Potts functions
template<class OP> static void fill(mc::Ctx& c, typename Model<OP>::type& gm, RefModel& r, bool share) {
   typedef typename Model<OP>::type GM; std::vector<size_t> l(r.L.begin(), r.L.end()); gm = GM(typename GM::SpaceType(l.begin(), l.end())); std::map<std::vector<int>, typename GM::FunctionIdentifier> seen;
   for(size_t i = 0; i < r.f.size(); ++i) {
      auto& f = r.f[i]; std::vector<int> shape; for(int v : f.v) shape.push_back(r.L[v]); shape.push_back(-1); shape.push_back((int)i % 2);
      if(share && !f.v.empty()) {
         if(!seen.count(shape)) { if(f.v.size() == 2 && i % 2) { double a = 1.5, b = -2; opengm::PottsFunction<double> p(r.L[f.v[0]], r.L[f.v[1]], a, b); seen[shape] = gm.addFunction(p); } else { std::vector<size_t> sh(shape.begin(), shape.end() - 2); opengm::ExplicitFunction<double> e(sh.begin(), sh.end()); for(size_t k = 0; k < e.size(); ++k) e(k) = patternValue((int)i % 3, (int)i, r.L, f.v, k, e.size()); seen[shape] = gm.addFunction(e); } }
         gm.addFactor(seen[shape], f.v.begin(), f.v.end()); std::vector<size_t> x(f.v.size(), 0); for(size_t k = 0; k < f.t.size(); ++k) { size_t q = k; for(size_t d = 0; d < f.v.size(); ++d) { x[d] = q % r.L[f.v[d]]; q /= r.L[f.v[d]]; } f.t[k] = gm[i](x.begin()); }
      } else addExplicit(gm, r, i);
   }
}
template<class OP, opengm::canonical_view::CloneOption CLONE> static void view(mc::Ctx& c, RefModel r, bool share) {
   typedef typename Model<OP>::type GM; typedef opengm::CanonicalView<GM, CLONE> V; const bool mult = IsMult<OP>::value; std::unique_ptr<GM> gm(new GM); fill<OP>(c, *gm, r, share); MC_TRACE(c, r.str() + (mult ? " *" : " +")); c.state(mc::mix(r.hash(), CLONE * 2 + mult)); c.step();
   V v(*gm); typedef typename V::Parent P; std::unique_ptr<P> copy; if(c.flip()) copy.reset(new P(v)); if(CLONE == opengm::canonical_view::CloneDeep) gm.reset(); const P& g = copy ? *copy : v;
   c.eq((int)g.numberOfVariables(), (int)r.L.size(), "as many variables"); for(size_t i = 0; i < r.L.size(); ++i) c.eq((int)g.numberOfLabels(i), r.L[i], "as many labels");
   std::map<std::vector<int>, double> want; std::map<std::vector<int>, int> count; std::set<std::vector<int> > scopes; for(auto& f : r.f) if(f.v.size() != 1) scopes.insert(f.v); for(size_t i = 0; i < r.L.size(); ++i) scopes.insert({(int)i});
   for(size_t i = 0; i < g.numberOfFactors(); ++i) count[std::vector<int>(g[i].variableIndicesBegin(), g[i].variableIndicesEnd())]++;
   c.eq(count.size(), scopes.size(), "one factor per set of variables and a unary factor per variable"); for(auto& e : count) { c.eq(e.second, 1, "no two factors with the same variables"); c.check(scopes.count(e.first), "no other factors"); }
   std::vector<int> lab(r.L.size(), 0);
   do {
      for(size_t i = 0; i < g.numberOfFactors(); ++i) { std::vector<int> s(g[i].variableIndicesBegin(), g[i].variableIndicesEnd()); double w = mult ? 1 : 0; for(size_t j = 0; j < r.f.size(); ++j) if(r.f[j].v == s) { double t = r.factorValue((int)j, lab); if(mult) w *= t; else w += t; } std::vector<size_t> x; for(int q : s) x.push_back(lab[q]); x.push_back(0); c.near(g[i](x.begin()), w, 1e-9, "a factor of the view combines the factors over its variables"); }
      double w = r.eval(lab, mult); c.near(g.evaluate(lab.begin()), w, 1e-9 * std::max(1.0, std::fabs(w)), "the view evaluates like the model");
   } while(r.next(lab));
   c.outcome(g.numberOfFactors());
}
template<class OP> static void views(mc::Ctx& c, const RefModel& r, bool share) { switch(c.choose(3)) { case 0: view<OP, opengm::canonical_view::CloneNever>(c, r, share); break; case 1: view<OP, opengm::canonical_view::CloneViews>(c, r, share); break; default: view<OP, opengm::canonical_view::CloneDeep>(c, r, share); } }
static void all(mc::Ctx& c, RefModel r) { bool share = c.flip(); if(c.flip()) views<opengm::Multiplier>(c, r, share); else views<opengm::Adder>(c, r, share); }
MC_SCENARIO("canonical/small") { all(c, anyModel(c, c.range(0, 2), {1, 3}, c.range(0, c.tier(4, 5)), 0, 2, 2, true)); }
MC_SCENARIO("canonical/three") { int n = 3; all(c, anyModel(c, n, {2}, c.range(2, 4), 0, 3, 1, c.thorough)); }
MC_SCENARIO("canonical/repeats") { RefModel r = fixedModel({2, 3}, {}); int k = c.range(3, c.tier(6, 7)); static const Scopes s = {{0}, {1}, {0, 1}, {}}; for(int i = 0; i < k; ++i) { RefFactor f; f.v = s[c.choose(3 + (i == 0))]; r.f.push_back(f); } for(int i = 0; i < k; ++i) fillPattern(r, i, i % 2); all(c, r); }
