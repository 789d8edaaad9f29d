#ifndef C18_PARTIAL_HXX
#define C18_PARTIAL_HXX
#include "models.hxx"
#include <typeinfo>
#include <opengm/operations/or.hxx>
#include <opengm/operations/and.hxx>
#include <opengm/inference/qpbo.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
#include <opengm/inference/sat.hxx>

// is each pairwise term submodular?
inline bool submodularTerms(const RefModel& r) { for(auto& f : r.f) if(f.v.size() == 2 && f.t[0] + f.t[3] > f.t[1] + f.t[2]) return false; return true; }
template<class GM, class V, opengm::BoostMaxFlowAlgorithm A> void qpbo(mc::Ctx& c, const RefModel& r, bool again = false) {
   typedef opengm::QPBO<GM, opengm::MinSTCutBoost<size_t, V, A> > S; GM gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str() << " algorithm " << (int)A);
   S s(gm); const size_t n = r.L.size();
   for(int k = 0; k < (again ? 2 : 1); ++k) {
      c.eq((int)s.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step();
      std::vector<typename GM::LabelType> l; c.eq((int)s.arg(l), (int)opengm::NORMAL, "labeling is available"); c.check(validLabeling(r, l), "labeling is complete and in range");
      std::vector<bool> o; double part = s.partialOptimality(o); c.eq(o.size(), n, "one certainty flag per variable"); int cnt = 0; for(bool b : o) cnt += b; if(n) c.near(part, (double)cnt / n, 1e-12, "the fraction of certain variables is reported");
      MC_TRACE(c, "labels " << show(toInt(l)) << " certain " << show(o));
      int optima = 0; double best = r.best(false, false, &optima); c.near((double)s.value(), r.eval(toInt(l)), 1e-6, "reported value is the value of the labeling"); c.check(!((double)s.bound() > best + 1e-6), "the bound does not exceed the optimum");
      std::vector<int> t(n, 0); bool extends = false; do { if(r.eval(t) > best + 1e-9) continue; bool agree = true; for(size_t i = 0; i < n; ++i) agree = agree && (!o[i] || t[i] == (int)l[i]); extends = extends || agree; } while(r.next(t));
      c.check(extends, "the certain labels belong to a globally optimal labeling");
      if(optima == 1 && submodularTerms(r)) c.eq(cnt, (int)n, "every variable of a submodular model with a unique optimum is certain");
      c.outcome(mc::mix(mc::bitsOf(best), (uint64_t)cnt * 8 + n));
   }
}
template<class GM, class V> void qpbos(mc::Ctx& c, const RefModel& r, int alg, bool again = false) {
   if(alg == 0) qpbo<GM, V, opengm::PUSH_RELABEL>(c, r, again); else if(alg == 1) qpbo<GM, V, opengm::EDMONDS_KARP>(c, r, again); else qpbo<GM, V, opengm::KOLMOGOROV>(c, r, again);
}
#endif
