// Shared by the relaxation-based solvers: what must hold each time a visitor is called.
#ifndef C17_STAGES_HXX
#define C17_STAGES_HXX
#include "models.hxx"
#include <opengm/inference/inference.hxx>
#include <opengm/inference/visitors/visitors.hxx>
template<class S, class ACC> struct Stages {
   mc::Ctx& c; const RefModel& r; double opt; bool monotone, maxi; int calls, begins, ends; double last; int stopAt; size_t flag;
   Stages(mc::Ctx& c, const RefModel& r, bool monotone, int stopAt = -1, size_t flag = 0) : c(c), r(r), opt(r.best(false, IsMax<ACC>::value)), monotone(monotone), maxi(IsMax<ACC>::value), calls(0), begins(0), ends(0), last(maxi ? INFINITY : -INFINITY), stopAt(stopAt), flag(flag) {}
   void look(S& s, bool final) {
      const double b = s.bound(), v = s.value(), none = ACC::template neutral<double>(), tol = 1e-6 * (1 + std::fabs(opt)); c.check(b == b && v == v, "bound and value are numbers");
      c.check(maxi ? b >= opt - tol : b <= opt + tol, "the bound is never on the wrong side of the optimum"); if(monotone) { c.check(maxi ? b <= last + tol : b >= last - tol, "the bound improves monotonically"); last = b; }
      if(v == none && !final) return; std::vector<typename S::LabelType> x; c.eq((int)s.arg(x), (int)opengm::NORMAL, "labeling is available"); c.check(validLabeling(r, x), "labeling is complete and in range"); if(!validLabeling(r, x)) return;
      c.near(r.eval(toInt(x)), v, 1e-9 * (1 + std::fabs(v)), "the reported value is the model's value of the labeling"); c.check(maxi ? v <= b + tol : v >= b - tol, "the value is not better than the bound");
   }
   void begin(S& s) { ++begins; c.eq(calls, 0, "begin comes first"); look(s, false); }
   size_t operator()(S& s) { ++calls; look(s, false); return stopAt >= 0 && calls > stopAt ? flag : (size_t)opengm::visitors::VisitorReturnFlag::ContinueInf; }
   void end(S& s) { ++ends; look(s, true); }
   void addLog(const std::string&) {} void log(const std::string& name, double v) { logged(name, v); }
   std::function<void(const std::string&, double)> onLog; void logged(const std::string& n, double v) { if(onLog) onLog(n, v); }
   void finish(S& s, int iterations) { c.eq(begins, 1, "one begin"); c.eq(ends, 1, "one end"); if(iterations > 0) c.check(calls <= iterations + 1, "not more visits than iterations"); look(s, true); MC_TRACE(c, "optimum " << opt << " bound " << s.bound() << " value " << s.value() << " visits " << calls); c.outcome(mc::mix(mc::bitsOf(s.bound()), mc::bitsOf(s.value()))); }
};
inline RefModel withUnaries(const std::vector<int>& L, const Scopes& s, bool first = true) { Scopes all; if(!first) all = s; for(size_t i = 0; i < L.size(); ++i) all.push_back({(int)i}); if(first) all.insert(all.end(), s.begin(), s.end()); return fixedModel(L, all); }
inline void potts(RefModel& r, int fi, double differ, double same) { auto& f = r.f[fi]; f.t.resize(r.tableSize(f.v)); for(size_t k = 0; k < f.t.size(); ++k) f.t[k] = (int)(k % r.L[f.v[0]]) == (int)(k / r.L[f.v[0]]) ? same : differ; }
// unary factors everywhere and k distinct pairwise scopes; the position of the unaries and the patterns vary
inline RefModel anyPairwise(mc::Ctx& c, int n, const std::vector<int>& lab, int k, int patterns, bool sameLabels = false) {
   std::vector<int> L; if(sameLabels) { int l = c.pick(lab); L.assign(n, l); } else { int q = c.choose(3); for(int i = 0; i < n; ++i) L.push_back(lab[q < 2 ? (i + q) % lab.size() : lab.size() - 1]); }
   Scopes s = allScopes(n, 2, 2), t; int last = 0; if(k > (int)s.size()) c.prune(); for(int i = 0; i < k; ++i) { if((int)s.size() - last - (k - i) < 0) c.prune(); last += c.choose((int)s.size() - last - (k - i) + 1); t.push_back(s[last++]); }
   RefModel r = withUnaries(L, t, c.flip()); int p = c.choose(patterns); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, r.f[i].v.size() == 1 ? p : c.choose(patterns)); return r;
}
inline bool covered(const RefModel& r) { std::vector<bool> b(r.L.size(), false); for(auto& f : r.f) if(f.v.size() == 2) b[f.v[0]] = b[f.v[1]] = true; for(bool x : b) if(!x) return false; return true; }
// 2x2 or 3x2 grids with the order of factors the grid decomposition expects
inline RefModel gridModel(mc::Ctx& c, int kind) {
   RefModel r = kind == 3 ? withUnaries(std::vector<int>(4, c.range(2, 3)), {{0, 1}, {0, 2}, {1, 3}, {2, 3}}) : withUnaries(std::vector<int>(6, 2), {{0, 1}, {0, 3}, {1, 2}, {1, 4}, {2, 5}, {3, 4}, {4, 5}});
   int p = c.choose(4); for(size_t i = 0; i < r.f.size(); ++i) if(r.f[i].v.size() == 1) fillPattern(r, (int)i, p); else if(kind == 3) fillPattern(r, (int)i, c.choose(4)); else fillPattern(r, (int)i, (int)(p + i) % 4); return r;
}
#endif
