// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c16_moves.hxx"
#include "ladder.hxx"
typedef GmOf<double, opengm::Adder>::type GD;
// larger models: the best move of each kind, by variable elimination
template<class S> static void final(mc::Ctx& c, const RefModel& r, S& s, const std::vector<int>& start, bool max, bool swap) {
   c.eq((int)s.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step(); std::vector<typename S::LabelType> x; c.eq((int)s.arg(x), (int)opengm::NORMAL, "labeling is available"); c.check(validLabeling(r, x), "labeling is complete and in range"); std::vector<int> l = toInt(x); double e = r.eval(l); c.near((double)s.value(), e, 1e-6, "reported value is the value of the labeling"); c.check(max ? e >= r.eval(start) - 1e-6 : e <= r.eval(start) + 1e-6, "labeling is not worse than the start");
   const int L = r.L[0]; for(int a = 0; a < L; ++a) for(int b = swap ? a + 1 : a; b < (swap ? L : a + 1); ++b) { std::vector<std::vector<int> > o; for(int y : l) if(swap) o.push_back(y == a || y == b ? std::vector<int>{a, b} : std::vector<int>{y}); else o.push_back(y == a ? std::vector<int>{a} : std::vector<int>{y, a}); double q = eliminate(restrictTo(r, o), false, max); if(max ? q > e + 1e-6 : q < e - 1e-6) { MC_TRACE(c, "labels " << a << " and " << b << " reach " << q << " from " << show(l)); c.fail(swap ? "a swap move can still improve the labeling" : "an expansion move can still improve the labeling"); } }
   c.outcome(mc::bitsOf(e));
}
template<class ACC, BoostMaxFlowAlgorithm A> static void big(mc::Ctx& c, const RefModel& r, const std::vector<int>& start, bool swap) {
   GD gm; build(gm, r); c.state(r.hash()); const bool max = IsMax<ACC>::value; std::vector<size_t> sp(start.begin(), start.end()); typedef opengm::GraphCut<GD, ACC, opengm::MinSTCutBoost<size_t, double, A> > GC;
   if(swap) { opengm::AlphaBetaSwap<GD, GC> s(gm); s.setStartingPoint(sp.begin()); final(c, r, s, start, max, true); } else { typedef opengm::AlphaExpansion<GD, GC> S; typename S::Parameter p; p.labelInitialType_ = S::Parameter::EXPLICIT_LABEL; p.label_ = sp; S s(gm, p); final(c, r, s, start, max, false); }
}
MC_SCENARIO("ladder/moves") {
   const int n = ladder(c, c.tier(40, 129)), shape = c.choose(SHAPES), L = c.range(2, c.tier(4, 6)), p = c.choose(3), q = c.choose(2); const bool max = c.flip(), swap = c.flip(); RefModel r = ladderModel(shape, n, {L}, q, true, c.flip()); for(auto& f : r.f) if(f.v.size() == 2) { f.t = labelTerm((p + f.v[0]) % 3, L); for(double& x : f.t) x *= 1 + f.v[1] % 3; if(!(swap ? swapTerm(f.t, L, 1) : expansionTerm(f.t, L, 1))) { f.t = labelTerm(0, L); } } if(max) for(auto& f : r.f) for(double& x : f.t) x = -x;
   std::vector<int> start(n); int st = c.choose(2); for(int i = 0; i < n; ++i) start[i] = st ? (i * 2 + 1) % L : 0; MC_TRACE(c, "shape " << shape << " size " << n << " labels " << L << " swap " << swap);
   if(max) big<opengm::Maximizer, opengm::KOLMOGOROV>(c, r, start, swap); else big<opengm::Minimizer, opengm::PUSH_RELABEL>(c, r, start, swap);
}
