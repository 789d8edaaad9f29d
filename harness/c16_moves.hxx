#ifndef C16_MOVES_HXX
#define C16_MOVES_HXX
#include "c13_cuts.hxx"
#include <opengm/inference/alphaexpansion.hxx>
#include <opengm/inference/alphabetaswap.hxx>

// s = 1 minimisation, -1 maximisation; table over two variables with L labels each, first variable fastest
inline bool expansionTerm(const std::vector<double>& t, int L, double s) { for(int a = 0; a < L; ++a) for(int x = 0; x < L; ++x) for(int y = 0; y < L; ++y) if(s * (t[a + L * a] + t[x + L * y]) > s * (t[x + L * a] + t[a + L * y])) return false; return true; }
inline bool swapTerm(const std::vector<double>& t, int L, double s) { for(int a = 0; a < L; ++a) for(int b = 0; b < L; ++b) if(s * (t[a + L * a] + t[b + L * b]) > s * (t[a + L * b] + t[b + L * a])) return false; return true; }
inline void noBetterMove(mc::Ctx& c, const RefModel& r, const std::vector<int>& l, bool max, bool swap) {
   const int n = (int)r.L.size(), L = n ? r.L[0] : 0; double e = r.eval(l);
   auto test = [&](const std::vector<int>& t) { double q = r.eval(t); if(max ? q > e + 1e-9 : q < e - 1e-9) { MC_TRACE(c, "labeling " << show(l) << " is improved by " << show(t)); c.fail(swap ? "a swap move can still improve the labeling" : "an expansion move can still improve the labeling"); } };
   for(int a = 0; a < L; ++a) for(int b = swap ? a + 1 : a; b < (swap ? L : a + 1); ++b) for(int m = 0; m < 1 << n; ++m) {
      std::vector<int> t = l; bool ok = true;
      for(int i = 0; i < n && ok; ++i) if(swap) { if(l[i] == a || l[i] == b) t[i] = m >> i & 1 ? b : a; else ok = !(m >> i & 1); } else if(m >> i & 1) t[i] = a;
      if(ok) test(t);
   }
}
template<class S> std::vector<int> run(mc::Ctx& c, const RefModel& r, S& s, const std::vector<int>& start, bool max, bool swap, const char* what) {
   c.eq((int)s.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step(); std::vector<typename S::LabelType> x; c.eq((int)s.arg(x), (int)opengm::NORMAL, "labeling is available");
   MC_TRACE(c, what << " from " << show(start) << " gives " << show(x)); c.check(validLabeling(r, x), "labeling is complete and in range"); std::vector<int> l = toInt(x); double e = r.eval(l);
   c.near((double)s.value(), e, 1e-9 * (1 + std::fabs(e)), "reported value is the value of the labeling");
   if(!start.empty()) { double b = r.eval(start); c.check(max ? e >= b - 1e-9 : e <= b + 1e-9, "labeling is not worse than the start"); }
   noBetterMove(c, r, l, max, swap); c.outcome(mc::bitsOf(e)); return l;
}
template<class GM, class ACC, BoostMaxFlowAlgorithm A> void expansion(mc::Ctx& c, const RefModel& r, const std::vector<int>& start, int how, const std::vector<int>& order, bool twice) {
   typedef opengm::AlphaExpansion<GM, opengm::GraphCut<GM, ACC, opengm::MinSTCutBoost<size_t, typename GM::ValueType, A> > > S; typedef typename GM::LabelType L; const bool max = IsMax<ACC>::value;
   GM gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str() << " start " << how << " order " << show(order));
   typename S::Parameter p; std::vector<L> sp(start.begin(), start.end()); std::vector<int> from = start;
   if(how == 0) { p.labelInitialType_ = S::Parameter::EXPLICIT_LABEL; p.label_ = sp; } if(how == 2) { p.labelInitialType_ = S::Parameter::LOCALOPT_LABEL; from.clear(); } if(how == 3) { p.labelInitialType_ = S::Parameter::RANDOM_LABEL; p.orderType_ = S::Parameter::RANDOM_ORDER; p.randSeedLabel_ = 3; p.randSeedOrder_ = 5; from.clear(); }
   if(!order.empty()) { p.orderType_ = S::Parameter::EXPLICIT_ORDER; for(int x : order) p.labelOrder_.push_back((L)x); }
   S s(gm, p); if(how == 1) s.setStartingPoint(sp.begin()); if(how == 4) s.setState(sp.begin(), sp.end());
   run(c, r, s, from, max, false, "expansion");
   if(twice) { s.reset(); run(c, r, s, how == 0 ? start : std::vector<int>(), max, false, "expansion after reset"); s.setStartingPoint(sp.begin()); run(c, r, s, start, max, false, "expansion from a new starting point"); }
}
template<class GM, class ACC, BoostMaxFlowAlgorithm A> void swapping(mc::Ctx& c, const RefModel& r, const std::vector<int>& start, bool set, bool twice) {
   typedef opengm::AlphaBetaSwap<GM, opengm::GraphCut<GM, ACC, opengm::MinSTCutBoost<size_t, typename GM::ValueType, A> > > S; typedef typename GM::LabelType L; const bool max = IsMax<ACC>::value;
   GM gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str()); S s(gm); std::vector<L> sp(start.begin(), start.end()); if(set) s.setStartingPoint(sp.begin());
   run(c, r, s, set ? start : std::vector<int>(start.size(), 0), max, true, "swap");
   if(twice) { s.reset(); run(c, r, s, std::vector<int>(start.size(), 0), max, true, "swap after reset"); s.setStartingPoint(sp.begin()); run(c, r, s, start, max, true, "swap from a new starting point"); }
}
inline std::vector<double> labelTerm(int p, int L) {   // pairwise terms that allow both kinds of moves
   std::vector<double> t(L * L);
   for(int x = 0; x < L; ++x) for(int y = 0; y < L; ++y) switch(p) {
      case 0: t[x + L * y] = x == y ? 0 : 1; break;
      case 1: t[x + L * y] = std::min(std::abs(x - y), 2) * 1.5; break;
      case 2: t[x + L * y] = x == y ? 0 : 2 + (x + y) % 2; break;
      case 3: t[x + L * y] = (x == y ? 0 : 1) + (x == 0 ? 0.5 : -1) + (y == L - 1 ? -0.75 : 0.25); break;   // a metric plus unary terms
      default: t[x + L * y] = x == y ? 0 : 3 - (x == 0) - 0.5 * (y == 1); break;
   }
   return t;
}
inline std::vector<int> anyLabels(mc::Ctx& c, const RefModel& r) { std::vector<int> l; for(int x : r.L) l.push_back(c.choose(x)); return l; }
inline RefModel labelModel(mc::Ctx& c, int n, int L, int k, bool max, bool swap, int patterns) {
   RefModel r; r.L.assign(n, L); Scopes s = allScopes(n, 0, 2); int last = 0;
   for(int i = 0; i < k; ++i) { last += c.choose((int)s.size() - last); RefFactor f; f.v = s[last]; r.f.push_back(f); }
   for(int i = 0; i < k; ++i) { auto& f = r.f[i]; if(f.v.size() < 2) fillPattern(r, i, c.choose(2)); else { f.t = labelTerm(c.choose(patterns), L); if(!(swap ? swapTerm(f.t, L, 1) : expansionTerm(f.t, L, 1))) c.prune(); } if(max) for(double& x : f.t) x = -x; }
   return r;
}
#endif
