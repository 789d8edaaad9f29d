// C05: every view function against the definition in terms of the factor it was built from, for every labeling, directly and as a function of another model.
#include <memory>
#include <opengm/datastructures/buffer_vector.hxx>
#include "c04_summaries.hxx"
#include <opengm/functions/view.hxx>
#include <opengm/functions/scaled_view.hxx>
#include <opengm/functions/view_convert_function.hxx>
#include <opengm/functions/view_fix_variables_function.hxx>
#include <opengm/functions/modelviewfunction.hxx>
#include <opengm/functions/accumulated_view.hxx>
#include <opengm/datastructures/marray/marray.hxx>
using namespace opengm;
template<class OP, class T, class I, class L> struct Base {
   typedef Fn<T, I, L> N; typedef typename meta::TypeListGenerator<typename N::E, typename N::S, typename N::C, typename N::P, typename N::PN, typename N::AD>::type Types;
   typedef GraphicalModel<T, OP, Types, DiscreteSpace<I, L> > GM;
   std::unique_ptr<GM> gm; std::vector<size_t> vis; Tab t; I fi;
   // a model with one filler factor and one factor to be viewed (optionally more on the same variables)
   std::vector<Tab> more;
   static Tab value(Ctx& c, const Co& sh, int o) { Tab t(sh); for(size_t k = 0; k < t.v.size(); ++k) t.v[k] = o == 0 ? (double)((k * 7 + 3) % 11) - 4 : o == 1 ? 1 + (double)k : (k % 2 ? -1.0 : 2.0); return t; }
   void make(Ctx& c, int type, int nMore, bool positive = false) {
      Co sh; std::vector<typename GM::FunctionIdentifier> ids; L dummy = 0; (void)dummy;
      sh = type == 0 ? shapeUpTo(c, 0, 4) : type == 3 || type == 5 ? c.pick(S2) : shapeUpTo(c, 1, 3);
      std::vector<L> labels; int gap = c.choose(2); for(size_t s : sh) { if(gap) labels.push_back(2); vis.push_back(labels.size()); labels.push_back((L)s); } labels.push_back(3);
      gm.reset(new GM(DiscreteSpace<I, L>(labels.begin(), labels.end()))); I last = labels.size() - 1; L three = 3; typename N::E fill(&three, &three + 1, (T)7); gm->addFactor(gm->addFunction(fill), &last, &last + 1);
      t = value(c, sh, positive ? 1 : 0); typename GM::FunctionIdentifier id;
      switch(type) {
         case 0: id = gm->addFunction(N::explicitOf(t)); break;
         case 1: { typename N::S f(sh.begin(), sh.end(), 0); for(size_t k = 0; k < t.v.size(); ++k) if(k % 3) { Co x = t.co(k); f.insert(x.begin(), (T)t.v[k]); } else t.v[k] = 0; if(positive) { typename N::S g(sh.begin(), sh.end(), 1); for(size_t k = 0; k < t.v.size(); ++k) { if(k % 3) { Co x = t.co(k); g.insert(x.begin(), (T)t.v[k]); } else t.v[k] = 1; } id = gm->addFunction(g); } else id = gm->addFunction(f); break; }
         case 2: t.fill([](const Co&) { return 3.0; }); id = gm->addFunction(typename N::C(sh.begin(), sh.end(), (T)3)); break;
         case 3: t.fill([](const Co& x) { return x[0] == x[1] ? 2.0 : 5.0; }); id = gm->addFunction(typename N::P((L)sh[0], (L)sh[1], 2, 5)); break;
         case 4: t.fill([](const Co& x) { return allEqual(x) ? 2.0 : 5.0; }); id = gm->addFunction(typename N::PN(sh.begin(), sh.end(), 2, 5)); break;
         case 5: t.fill([&](const Co& x) { double d = std::fabs((double)x[0] - (double)x[1]); return 2 * d; }); id = gm->addFunction(typename N::AD((L)sh[0], (L)sh[1], 2)); break;
      }
      fi = gm->addFactor(id, vis.begin(), vis.end());
      for(int i = 0; i < nMore; ++i) { Tab u = value(c, sh, i + 1); more.push_back(u); gm->addFactor(gm->addFunction(N::explicitOf(u)), vis.begin(), vis.end()); }
      MC_TRACE(c, "factor type " << type << " " << t.str());
   }
};
template<class T, class V> static void look(Ctx& c, const V& v, const Tab& t, double tol, bool sums = true) {
   c.eq((size_t)v.dimension(), t.sh.size(), "dimension"); c.eq((size_t)v.size(), t.v.size(), "size"); for(size_t d = 0; d < t.sh.size(); ++d) c.eq((size_t)v.shape(d), t.sh[d], "shape");
   for(int dir = 0; dir < 2; ++dir) for(size_t i = 0; i < t.v.size(); ++i) { size_t k = dir ? t.v.size() - 1 - i : i; Co x = t.co(k); x.push_back(0); std::vector<unsigned char> u(x.begin(), x.end()); c.near((double)v(x.begin()), t.v[k], tol, "value"); c.near((double)v(&u[0]), t.v[k], tol, "value (pointer)"); }
   if(sums) summaries<T>(c, v, t, false);
}
// the view itself, a copy, an assigned copy, and the view as a function of another model
template<class OP, class V, class T, class I, class L> static void view(Ctx& c, const V& v, const Tab& t, double tol) {
   look<T>(c, v, t, tol); V cp(v); look<T>(c, cp, t, tol, false); { V as(v); as = cp; look<T>(c, as, t, tol, false); } look<T>(c, v, t, tol, false);
   typedef GraphicalModel<T, OP, typename meta::TypeListGenerator<V, ExplicitFunction<T, I, L> >::type, DiscreteSpace<I, L> > GM2; std::vector<L> labels(t.sh.begin(), t.sh.end()); labels.push_back(2); GM2 m(DiscreteSpace<I, L>(labels.begin(), labels.end()));
   std::vector<I> vis; for(size_t d = 0; d < t.sh.size(); ++d) vis.push_back(d); m.addFactor(m.addFunction(v), vis.begin(), vis.end()); GM2 m2(m);
   for(size_t k = 0; k < t.v.size(); ++k) { Co x = t.co(k); x.push_back(0); c.near((double)m[0](x.begin()), t.v[k], tol, "value through another model"); c.near((double)m2.evaluate(x.begin()), t.v[k], tol, "copied model's value"); }
   c.eq((size_t)m[0].size(), t.v.size(), "factor size");
}
template<class OP, class T, class I, class L> struct Views {
   typedef Base<OP, T, I, L> B; typedef typename B::GM GM;
   static void plain(Ctx& c) { B b; b.make(c, c.choose(6), 0); ViewFunction<GM> v((*b.gm)[b.fi]); view<OP, ViewFunction<GM>, T, I, L>(c, v, b.t, 0); }
   static void scaled(Ctx& c) {
      typedef ScaledViewFunction<GM> V; if(c.choose(5) == 0) { std::vector<I> sh; Co s = shapeUpTo(c, 0, 4); sh.assign(s.begin(), s.end()); Tab t(s); T n; OP::neutral(n); for(double& x : t.v) x = n; MC_TRACE(c, "neutral view"); V v(sh); view<OP, V, T, I, L>(c, v, t, 0); return; }
      B b; b.make(c, c.choose(6), 0); double s = c.pick(std::vector<double>{0, 1, -2, 0.5}); for(double& x : b.t.v) x *= s; V v(*b.gm, b.fi, (T)s); MC_TRACE(c, "scale " << s); view<OP, V, T, I, L>(c, v, b.t, 0);
   }
   template<class ACC> static void convert(Ctx& c, int sign) {
      typedef ViewConvertFunction<GM, ACC, T> V; bool add = meta::Compare<OP, Adder>::value; B b; b.make(c, c.choose(6), 0, true); bool def = c.flip(); double it = def ? 1 : c.pick(std::vector<double>{1, 0.5, 2});
      if(!add && b.fi) for(double x : b.t.v) if(x == 0) c.prune();
      for(double& x : b.t.v) x = add ? std::exp(sign * it * x) : sign > 0 ? x : 1 / x; MC_TRACE(c, "inverse temperature " << it); double tol = 0; for(double x : b.t.v) tol = std::max(tol, std::fabs(x)); tol *= sizeof(T) == 4 ? 1e-5 : 1e-12;
      if(def) { V v((*b.gm)[b.fi]); view<OP, V, T, I, L>(c, v, b.t, tol); } else { V v((*b.gm)[b.fi], (T)it); view<OP, V, T, I, L>(c, v, b.t, tol); }
   }
   static void fix(Ctx& c) {
      typedef ViewFixVariablesFunction<GM> V; typedef PositionAndLabel<I, L> PL; B b; b.make(c, c.choose(6), 0); const Tab& t = b.t; std::vector<PL> f; std::vector<int> lab(t.sh.size(), -1); Co rest;
      for(size_t d = 0; d < t.sh.size(); ++d) if(c.flip()) { lab[d] = c.choose((int)t.sh[d]); f.push_back(PL(d, lab[d])); } else rest.push_back(t.sh[d]);
      if(f.size() > 1) { int o = c.choose(3); if(o == 1) std::reverse(f.begin(), f.end()); if(o == 2) std::rotate(f.begin(), f.begin() + 1, f.end()); }
      Tab u(rest); u.fill([&](const Co& x) { Co y; size_t j = 0; for(size_t d = 0; d < lab.size(); ++d) y.push_back(lab[d] >= 0 ? (size_t)lab[d] : x[j++]); return t.at(y); });
      MC_TRACE(c, "fixed"; for(const PL& p : f) c.trace << " " << (size_t)p.position_ << "=" << (size_t)p.label_);
      if(c.flip()) { V v((*b.gm)[b.fi], f); view<OP, V, T, I, L>(c, v, u, 0); } else { BufferVector<PL> g; for(const PL& p : f) g.push_back(p); V v((*b.gm)[b.fi], g); view<OP, V, T, I, L>(c, v, u, 0); }
   }
   static void modelView(Ctx& c) {
      typedef marray::Marray<T> M; typedef ModelViewFunction<GM, M> V; B b; b.make(c, c.choose(6), 0); int kind = c.choose(3); double s = c.pick(std::vector<double>{0, 1, -2, 0.5}); if(b.t.sh.empty() && kind) c.prune();
      M off(b.t.sh.begin(), b.t.sh.end()); Tab u(b.t.sh); for(size_t k = 0; k < u.v.size(); ++k) { u.v[k] = (double)((k * 5) % 7) - 3; Co x = u.co(k); x.push_back(0); off(x.begin()) = (T)u.v[k]; }
      Tab t(b.t); for(size_t k = 0; k < t.v.size(); ++k) t.v[k] = kind == 0 ? s * t.v[k] : kind == 1 ? s * t.v[k] + u.v[k] : u.v[k]; MC_TRACE(c, "kind " << kind << " scale " << s);
      if(kind == 0) { V v(*b.gm, b.fi, (T)s); view<OP, V, T, I, L>(c, v, t, 0); } else if(kind == 1) { V v(*b.gm, b.fi, (T)s, &off); view<OP, V, T, I, L>(c, v, t, 0); off(0) += 1; t.v[0] += 1; look<T>(c, v, t, 0); } else { V v(&off); view<OP, V, T, I, L>(c, v, t, 0); }
   }
   static void accumulated(Ctx& c) {
      typedef AccumulatedViewFunction<GM> V; B b; int n = c.range(1, 3); b.make(c, c.choose(6), 2); std::vector<const typename GM::FactorType*> p; std::vector<int> w; T n0; OP::neutral(n0); Tab t(b.t.sh); for(double& x : t.v) x = n0;
      for(int i = 0; i < n; ++i) { int k = c.choose(3); w.push_back(k); p.push_back(&(*b.gm)[b.fi + k]); const Tab& u = k == 0 ? b.t : b.more[k - 1]; for(size_t j = 0; j < t.v.size(); ++j) { T r = (T)t.v[j]; OP::op((T)u.v[j], r); t.v[j] = r; } }
      MC_TRACE(c, "accumulate"; for(int k : w) c.trace << " " << k); if(n == 1 && c.flip()) { V v(*p[0]); view<OP, V, T, I, L>(c, v, t, 0); } else { V v(p.begin(), p.end()); view<OP, V, T, I, L>(c, v, t, 0); }
   }
};
