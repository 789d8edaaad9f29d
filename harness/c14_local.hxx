#ifndef C14_LOCAL_HXX
#define C14_LOCAL_HXX
#include "models.hxx"
#include <iostream>
#include <opengm/inference/icm.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/infandflip.hxx>
#include <opengm/inference/greedygremlin.hxx>
#include <opengm/inference/bruteforce.hxx>

struct Quiet { std::streambuf* b; Quiet() : b(std::cout.rdbuf(0)) {} ~Quiet() { std::cout.rdbuf(b); std::cout.clear(); } };
// is the labeling the best among all labelings that differ from it in the given variables only?
inline bool bestOn(const RefModel& r, const std::vector<int>& l, const std::vector<int>& v, bool mult, bool max, std::vector<int>* better = 0) {
   double e = r.eval(l, mult); std::vector<int> t = l; for(int x : v) t[x] = 0;
   for(;;) {
      double q = r.eval(t, mult); if((max ? q > e : q < e) && std::fabs(q - e) > 1e-9 * (1 + std::fabs(e))) { if(better) *better = t; return false; }
      bool more = false; for(int x : v) { if(++t[x] < r.L[x]) { more = true; break; } t[x] = 0; } if(!more) return true;
   }
}
inline std::vector<std::vector<bool> > adjacency(const RefModel& r) { std::vector<std::vector<bool> > a(r.L.size(), std::vector<bool>(r.L.size(), false)); for(auto& f : r.f) for(int x : f.v) for(int y : f.v) if(x != y) a[x][y] = true; return a; }
inline bool connectedSet(const std::vector<std::vector<bool> >& a, int mask) {
   int s = mask & -mask, d = 0; while(s != d) { d = s; for(size_t i = 0; i < a.size(); ++i) if(d >> i & 1) for(size_t j = 0; j < a.size(); ++j) if(a[i][j] && (mask >> j & 1)) s |= 1 << j; } return s == mask;
}
// no connected subset of up to k variables can improve the labeling
inline void locallyOptimal(mc::Ctx& c, const RefModel& r, const std::vector<int>& l, int k, bool mult, bool max) {
   auto a = adjacency(r); const int n = (int)r.L.size();
   for(int m = 1; m < 1 << n; ++m) if(__builtin_popcount(m) <= k && connectedSet(a, m)) {
      std::vector<int> v, b; for(int i = 0; i < n; ++i) if(m >> i & 1) v.push_back(i);
      if(!bestOn(r, l, v, mult, max, &b)) { MC_TRACE(c, "labeling " << show(l) << " is improved by " << show(b)); c.fail("a connected subset of the searched size can still improve the labeling"); }
   }
}
template<class S> std::vector<int> result(mc::Ctx& c, const RefModel& r, S& s, const std::vector<int>& start, bool mult, bool max, const char* what) {
   std::vector<typename S::LabelType> x; c.eq((int)s.arg(x), (int)opengm::NORMAL, "labeling is available"); MC_TRACE(c, what << " from " << show(start) << " gives " << show(x));
   c.check(validLabeling(r, x), "labeling is complete and in range"); std::vector<int> l = toInt(x);
   double e = r.eval(l, mult), tol = 1e-9 * (1 + std::fabs(e)); c.near((double)s.value(), e, tol, "reported value is the value of the labeling");
   if(!start.empty()) { double b = r.eval(start, mult); c.check(max ? e >= b - tol : e <= b + tol, "labeling is not worse than the start"); }
   c.outcome(mc::bitsOf(e)); return l;
}
inline std::vector<int> anyLabeling(mc::Ctx& c, const RefModel& r) { std::vector<int> l; for(int x : r.L) l.push_back(c.choose(x)); return l; }

template<class GM, class ACC> void icm(mc::Ctx& c, const RefModel& r) {
   const bool mult = IsMult<typename GM::OperatorType>::value, max = IsMax<ACC>::value; typedef opengm::ICM<GM, ACC> S;
   GM gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str()); const bool factors = c.flip(); int how = c.choose(3);
   std::vector<int> start = how == 0 ? std::vector<int>(r.L.size(), 0) : anyLabeling(c, r); std::vector<typename GM::LabelType> sp(start.begin(), start.end());
   typename S::Parameter p(factors ? S::FACTOR : S::SINGLE_VARIABLE, how == 1 ? sp : std::vector<typename GM::LabelType>());
   S s(gm, p); if(how == 2) s.setStartingPoint(sp.begin());
   auto done = [&](const std::vector<int>& from) {
      c.eq((int)s.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step(); std::vector<int> l = result(c, r, s, from, mult, max, factors ? "icm (factors)" : "icm");
      for(int v = 0; v < (int)r.L.size(); ++v) c.check(bestOn(r, l, {v}, mult, max), "no single variable can improve the labeling");
      if(factors) for(auto& f : r.f) if(!f.v.empty() && !bestOn(r, l, f.v, mult, max)) { MC_TRACE(c, "factor over " << show(f.v)); c.fail("the variables of a factor can still improve the labeling"); }
   };
   done(start);
   if(how == 2 && c.thorough) { std::vector<int> next = anyLabeling(c, r); std::vector<typename GM::LabelType> np(next.begin(), next.end()); s.setStartingPoint(np.begin()); done(next); }
}
template<class GM, class ACC> void lazy(mc::Ctx& c, const RefModel& r, int size, const std::vector<int>& start, int multilabel, int how, bool twice) {
   const bool mult = IsMult<typename GM::OperatorType>::value, max = IsMax<ACC>::value; typedef opengm::LazyFlipper<GM, ACC> S;
   GM gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str() << " subgraph size " << size);
   std::vector<typename GM::LabelType> sp(start.begin(), start.end()); opengm::Tribool m = multilabel == 0 ? opengm::Tribool(opengm::Tribool::Maybe) : multilabel == 1 ? opengm::Tribool(opengm::Tribool::True) : opengm::Tribool(opengm::Tribool::False);
   typename S::Parameter p = how == 0 ? typename S::Parameter((size_t)size, sp.begin(), sp.end(), m) : typename S::Parameter((size_t)(how == 1 ? size : 1), m);
   S s(gm, p); if(how) s.setStartingPoint(sp.begin()); if(how == 2) s.setMaxSubgraphSize(size); c.eq((size_t)s.maxSubgraphSize(), (size_t)size, "subgraph size");
   c.eq((int)s.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step(); std::vector<int> l = result(c, r, s, start, mult, max, "lazy flipper"); locallyOptimal(c, r, l, size, mult, max);
   if(twice) { std::vector<int> next; for(size_t i = 0; i < start.size(); ++i) next.push_back(r.L[i] - 1 - start[i]); std::vector<typename GM::LabelType> np(next.begin(), next.end()); s.setStartingPoint(np.begin()); c.eq((int)s.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step(); std::vector<int> l2 = result(c, r, s, next, mult, max, "second run of the lazy flipper"); locallyOptimal(c, r, l2, size, mult, max); }
}
template<class GM, class ACC, class INF> void infFlip(mc::Ctx& c, const RefModel& r, int size) {
   Quiet quiet; const bool mult = IsMult<typename GM::OperatorType>::value, max = IsMax<ACC>::value; typedef opengm::InfAndFlip<GM, ACC, INF> S;
   GM gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str() << " subgraph size " << size);
   typename S::Parameter p((size_t)size); S s(gm, p); std::vector<int> start;
   if(c.flip()) { start = anyLabeling(c, r); std::vector<typename GM::LabelType> sp(start.begin(), start.end()); s.setStartingPoint(sp.begin()); }
   c.eq((int)s.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step(); std::vector<int> l = result(c, r, s, start, mult, max, "infer and flip"); locallyOptimal(c, r, l, size, mult, max);
   INF inf(gm); inf.infer(); std::vector<typename GM::LabelType> x; inf.arg(x); double a = r.eval(toInt(x), mult), e = r.eval(l, mult); c.check(max ? e >= a - 1e-9 : e <= a + 1e-9, "not worse than the inner solver");
}
// the greedy order is free, but there must be one: some order of the variables in which each label is a best one given the earlier ones
template<class GM, class ACC> void greedy(mc::Ctx& c, const RefModel& r) {
   const bool mult = IsMult<typename GM::OperatorType>::value, max = IsMax<ACC>::value; typedef opengm::GreedyGremlin<GM, ACC> S;
   GM gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str()); S s(gm); c.eq((int)s.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step();
   std::vector<int> l = result(c, r, s, std::vector<int>(), mult, max, "greedy search"); const int n = (int)r.L.size();
   std::vector<char> reach(1 << n, 0); reach[0] = 1;
   for(int m = 0; m < 1 << n; ++m) if(reach[m]) for(int v = 0; v < n; ++v) if(!(m >> v & 1)) {
      RefModel q; q.L = r.L; for(auto& f : r.f) { bool in = false, ok = true; for(int x : f.v) { in = in || x == v; ok = ok && (x == v || (m >> x & 1)); } if(in && ok) q.f.push_back(f); }
      if(bestOn(q, l, {v}, mult, max)) reach[m | 1 << v] = 1;
   }
   c.check(reach[(1 << n) - 1], "labels are best given the variables fixed before, for some order");
}
#endif
