// C21: a model with some variables fixed, against the reference model restricted to the fixed labels.
#ifndef C21_HXX
#define C21_HXX
#include "models.hxx"
#include <opengm/graphicalmodel/graphicalmodel_manipulator.hxx>
template<class GM, class ACC> struct Reduce {
   typedef opengm::GraphicalModelManipulator<GM> M; typedef typename M::MGM MGM; typedef typename GM::LabelType L; typedef std::vector<L> Labels;
   static constexpr bool mult = IsMult<typename GM::OperatorType>::value, maximise = IsMax<ACC>::value;
   static constexpr int FREE = -1;
   // value of the reference labeling (factors with fixed variables left out in drop mode)
   static double value(const RefModel& r, const std::vector<int>& lab, const std::vector<int>& fix, bool drop) {
      double v = mult ? 1 : 0; for(size_t i = 0; i < r.f.size(); ++i) { if(drop) { bool touched = false; for(int x : r.f[i].v) touched = touched || fix[x] != FREE; if(touched) continue; } double t = r.factorValue((int)i, lab); if(mult) v *= t; else v += t; } return v;
   }
   // every labeling of a reduced model with variables vars (original indices); eliminated: variables optimised over
   static std::vector<int> all(const std::vector<int>& L, int k) { std::vector<int> l(L.size()); for(size_t i = 0; i < L.size(); ++i) { l[i] = k % L[i]; k /= L[i]; } return l; }
   static void checkModels(mc::Ctx& c, M& m, const RefModel& r, const std::vector<int>& fix, bool drop, bool tentacles, int order) {
      const int n = (int)r.L.size(); std::vector<int> freeVars; for(int v = 0; v < n; ++v) { if(fix[v] != FREE) c.check(m.isFixed(v), "a fixed variable is fixed"); if(!m.isFixed(v)) freeVars.push_back(v); else if(!tentacles) c.check(fix[v] != FREE, "only fixed variables are fixed"); }
      std::vector<int> RL; for(int v : freeVars) RL.push_back(r.L[v]); int total = 1; for(int l : RL) total *= l;
      for(int pass = 0; pass < 2; ++pass) {
         if((pass == 0) == (order != 1)) {   // the whole reduced model
            if(order == 3) continue; m.buildModifiedModel(); c.check(m.isLocked(), "building locks the manipulator"); const MGM& g = m.getModifiedModel(); c.eq((size_t)g.numberOfVariables(), freeVars.size(), "the reduced model has the free variables"); for(size_t i = 0; i < freeVars.size(); ++i) c.eq((int)g.numberOfLabels(i), RL[i], "labels of the free variables in original order");
            double top = 0; bool first = true;
            for(int k = 0; k < total; ++k) { std::vector<int> l = all(RL, k); Labels ml(l.begin(), l.end()), ol; ml.push_back(0); double got = g.evaluate(ml.begin()); ml.pop_back(); if(ml.empty()) { } m.modifiedState2OriginalState(ml, ol); judge(c, r, fix, drop, tentacles, freeVars, l, ol, got); if(first || (maximise ? got > top : got < top)) { top = got; first = false; } }
            if(tentacles) optimum(c, r, fix, top);
         } else {   // the independent parts
            if(order == 2) continue; m.buildModifiedSubModels(); c.check(m.isLocked(), "building locks the manipulator"); std::vector<int> comp(n, -1); int parts = 0;
            { std::vector<int> p(n); for(int v = 0; v < n; ++v) p[v] = v; bool ch = true; while(ch) { ch = false; for(auto& f : r.f) { int lo = n; for(int x : f.v) if(!m.isFixed(x)) lo = std::min(lo, p[x]); for(int x : f.v) if(!m.isFixed(x) && p[x] > lo) { p[x] = lo; ch = true; } } } std::map<int, int> id; for(int v : freeVars) { if(!id.count(p[v])) id[p[v]] = parts++; comp[v] = id[p[v]]; } }
            c.eq((int)m.numberOfSubmodels(), std::max(parts, 1), "one sub-model per connected component of the free variables"); std::vector<std::vector<int> > of(std::max(parts, 1)); for(int v : freeVars) of[comp[v]].push_back(v);
            for(size_t s = 0; s < of.size(); ++s) { const MGM& g = m.getModifiedSubModel(s); c.eq((size_t)g.numberOfVariables(), of[s].size(), "the sub-model has the variables of its component"); for(size_t i = 0; i < of[s].size(); ++i) c.eq((int)g.numberOfLabels(i), r.L[of[s][i]], "labels of the component's variables in original order"); }
            double top = 0; bool first = true;
            for(int k = 0; k < total; ++k) {
               std::vector<int> l = all(RL, k); std::vector<Labels> sub(of.size()); for(size_t i = 0; i < l.size(); ++i) sub[comp[freeVars[i]]].push_back((L)l[i]); Labels ol; m.modifiedSubStates2OriginalState(sub, ol); double got = mult ? 1 : 0; for(size_t s = 0; s < of.size(); ++s) { Labels q = sub[s]; q.push_back(0); double e = m.getModifiedSubModel(s).evaluate(q.begin()); if(mult) got *= e; else got += e; }
               judge(c, r, fix, drop, tentacles, freeVars, l, ol, got); if(first || (maximise ? got > top : got < top)) { top = got; first = false; }
            }
            if(tentacles) optimum(c, r, fix, top);
         }
      }
   }
   static void optimum(mc::Ctx& c, const RefModel& r, const std::vector<int>& fix, double top) { std::vector<int> lab(r.L.size(), 0); bool first = true; double b = 0; do { bool ok = true; for(size_t v = 0; v < lab.size(); ++v) ok = ok && (fix[v] == FREE || fix[v] == lab[v]); if(!ok) continue; double e = r.eval(lab, mult); if(first || (maximise ? e > b : e < b)) { b = e; first = false; } } while(r.next(lab)); c.near(top, b, 1e-9 * (1 + std::fabs(b)), "the reduced model keeps the optimum"); c.outcome(mc::bitsOf(b)); }
   static void judge(mc::Ctx& c, const RefModel& r, const std::vector<int>& fix, bool drop, bool tentacles, const std::vector<int>& freeVars, const std::vector<int>& l, const Labels& ol, double got) {
      c.check(validLabeling(r, ol), "the translated labeling is complete and in range"); std::vector<int> o = toInt(ol); for(size_t v = 0; v < o.size(); ++v) if(fix[v] != FREE) c.eq(o[v], fix[v], "fixed variables have their label"); for(size_t i = 0; i < l.size(); ++i) c.eq(o[freeVars[i]], l[i], "free variables keep their label");
      double full = value(r, o, fix, drop); c.near(got, full, 1e-9 * (1 + std::fabs(full)), "a reduced labeling has the value of the completed one");
      if(tentacles && freeVars.size() < r.L.size()) {   // the completion is a best one
         std::vector<int> lab(r.L.size(), 0); do { bool ok = true; for(size_t v = 0; v < lab.size(); ++v) ok = ok && (fix[v] == FREE || fix[v] == lab[v]); for(size_t i = 0; i < l.size(); ++i) ok = ok && lab[freeVars[i]] == l[i]; if(!ok) continue; double e = r.eval(lab, mult); c.check(maximise ? e <= full + 1e-9 * (1 + std::fabs(full)) : e >= full - 1e-9 * (1 + std::fabs(full)), "eliminated variables are completed in the best way"); } while(r.next(lab));
      }
   }
   // rounds: how often the manipulator is unlocked and used again; choices: 2 free or fixed to any label, 3 with detours
   static void run(mc::Ctx& c, const RefModel& r, bool drop, bool tentacles, int rounds, bool detours, int mask = -1) {
      GM gm; build(gm, r); M m(gm, drop ? M::DROP : M::FIX); const int n = (int)r.L.size(); c.state(r.hash()); MC_TRACE(c, r.str() + (drop ? " drop" : "") + (tentacles ? maximise ? " tentacles max" : " tentacles" : ""));
      for(int k = 0; k < rounds; ++k) {
         if(k) { c.eq(m.isLocked(), true, "locked"); m.unlock(); c.check(!m.isLocked(), "unlocked"); for(int v = 0; v < n; ++v) c.check(!m.isFixed(v), "unlocking frees all variables"); }
         std::vector<int> fix(n, FREE); uint64_t h = k;
         for(int v = 0; v < n; ++v) { if(!(mask >> v & 1)) continue; int q = c.choose(1 + r.L[v]); if(q) { if(detours && c.flip()) m.fixVariable(v, r.L[v] - 1); m.fixVariable(v, q - 1); fix[v] = q - 1; } else if(detours && c.flip()) { m.fixVariable(v, 0); m.freeVariable(v); } h = h * 5 + q; }
         if(detours && c.flip()) { m.freeAllVariables(); fix.assign(n, FREE); }
         MC_TRACE(c, "fixed " + show(fix)); c.step(); c.state(mc::mix(r.hash(), h)); const bool te = tentacles && (rounds == 1 || !c.flip());
         if(te) m.template lockAndTentacelElimination<ACC>(); else if(!detours || c.flip()) m.lock();
         checkModels(c, m, r, fix, drop, te, c.choose(detours ? 4 : 2));
      }
   }
};
#endif
