#ifndef C13_CUTS_HXX
#define C13_CUTS_HXX
#include "models.hxx"
#include <list>
#include <opengm/inference/graphcut.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
using opengm::BoostMaxFlowAlgorithm;

struct CutEdge { int a, b; double w; };
template<class V, BoostMaxFlowAlgorithm A> void cut(mc::Ctx& c, int n, const std::vector<CutEdge>& e) {
   opengm::MinSTCutBoost<size_t, V, A> m(n, e.size()); std::string s;
   for(auto& x : e) { m.addEdge(x.a, x.b, (V)x.w); s += std::to_string(x.a) + ">" + std::to_string(x.b) + ":" + std::to_string(x.w) + " "; }
   MC_TRACE(c, n << " nodes, edges " << s << " algorithm " << (int)A);
   std::vector<bool> g; m.calculateCut(g); c.step(); c.eq(g.size(), (size_t)n, "one side per node");
   auto weight = [&](int mask) { double w = 0; for(auto& x : e) { auto side = [&](int v) { return v == 0 ? 0 : v == 1 ? 1 : mask >> (v - 2) & 1; }; if(side(x.a) == 0 && side(x.b) == 1) w += x.w; } return w; };
   double best = weight(0); int cnt = 0; for(int k = 0; k < 1 << (n - 2); ++k) { double w = weight(k); if(w < best) { best = w; cnt = 0; } cnt += w == best; }
   int got = 0; for(int v = 2; v < n; ++v) got |= (int)g[v] << (v - 2);
   c.near(weight(got), best, 1e-9, "weight of the returned cut is minimal"); c.outcome(mc::mix((uint64_t)(best * 16), (uint64_t)cnt * 64 + n));
}
template<class V> void cuts(mc::Ctx& c, int n, const std::vector<CutEdge>& e, int alg) {
   if(alg == 0) cut<V, opengm::PUSH_RELABEL>(c, n, e); else if(alg == 1) cut<V, opengm::EDMONDS_KARP>(c, n, e); else cut<V, opengm::KOLMOGOROV>(c, n, e);
}

template<class GM, class ACC, BoostMaxFlowAlgorithm A, class V> void graphCut(mc::Ctx& c, const RefModel& r, int how, double scale) {
   typedef opengm::GraphCut<GM, ACC, opengm::MinSTCutBoost<size_t, V, A> > GC;
   GM gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str() << " algorithm " << (int)A << " scale " << scale << " construction " << how);
   typename GC::Parameter p; p.scale_ = (typename GM::ValueType)scale;
   std::vector<typename GM::LabelType> l;
   if(how == 0) { GC gc(gm, p); c.eq((int)gc.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step(); c.eq((int)gc.arg(l), (int)opengm::NORMAL, "labeling available"); }
   else {
      std::vector<size_t> dim(4, 0); for(auto& f : r.f) ++dim[f.v.size()];
      if(how == 2) while(dim.size() > 1 && dim.back() == 0) dim.pop_back();
      GC gc(r.L.size(), dim, p); for(size_t f = 0; f < gm.numberOfFactors(); ++f) gc.addFactor(gm[gm.numberOfFactors() - 1 - f]);
      opengm::visitors::EmptyVisitor<GC> v; c.eq((int)gc.infer(v), (int)opengm::NORMAL, "inference succeeds"); c.step(); c.eq((int)gc.arg(l), (int)opengm::NORMAL, "labeling available");
   }
   MC_TRACE(c, "returned " << show(l));
   c.check(validLabeling(r, l), "labeling is complete and in range"); int cnt = 0; double best = r.best(false, IsMax<ACC>::value, &cnt);
   c.near(r.eval(toInt(l), false), best, 1e-9 * (1 + std::fabs(best)), "energy of the labeling is optimal"); c.outcome(mc::mix(mc::bitsOf(best), cnt));
}
// a table over two or three binary variables is submodular (supermodular for s = -1)
inline bool submodular(const std::vector<double>& t, double s) {
   int n = t.size() == 4 ? 2 : t.size() == 8 ? 3 : 0;
   for(int a = 0; a < n; ++a) for(int b = a + 1; b < n; ++b) for(size_t k = 0; k < t.size(); ++k) if(!(k >> a & 1) && !(k >> b & 1)) { size_t A = 1u << a, B = 1u << b; if(s * (t[k] + t[k | A | B]) > s * (t[k | A] + t[k | B])) return false; }
   return true;
}
template<class GM, class ACC, class V> void algorithms(mc::Ctx& c, const RefModel& r, int alg, int how, double scale) {
   if(alg == 0) graphCut<GM, ACC, opengm::PUSH_RELABEL, V>(c, r, how, scale); else if(alg == 1) graphCut<GM, ACC, opengm::EDMONDS_KARP, V>(c, r, how, scale); else graphCut<GM, ACC, opengm::KOLMOGOROV, V>(c, r, how, scale);
}
#endif
