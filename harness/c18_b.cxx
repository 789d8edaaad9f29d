// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c18_partial.hxx"
#include "ladder.hxx"
// larger models: the certain labels can be completed to an optimum, by variable elimination
template<class V, opengm::BoostMaxFlowAlgorithm A> static void big(mc::Ctx& c, const RefModel& r) {
   typedef GmOf<double, opengm::Adder>::type GD; typedef opengm::QPBO<GD, opengm::MinSTCutBoost<size_t, V, A> > S; GD gm; build(gm, r); c.state(r.hash()); S s(gm); c.eq((int)s.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step(); const size_t n = r.L.size();
   std::vector<size_t> l; c.eq((int)s.arg(l), (int)opengm::NORMAL, "labeling is available"); c.check(validLabeling(r, l), "labeling is complete and in range"); std::vector<bool> o; double part = s.partialOptimality(o); int cnt = 0; for(bool b : o) cnt += b; c.near(part, (double)cnt / n, 1e-12, "the fraction of certain variables is reported"); MC_TRACE(c, "labels " << show(l) << " certain " << show(o));
   double best = eliminate(r); c.near(s.value(), r.eval(toInt(l)), 1e-6, "reported value is the value of the labeling"); c.check(!(s.bound() > best + 1e-6), "the bound does not exceed the optimum"); auto opts = allOptions(r); for(size_t i = 0; i < n; ++i) if(o[i]) opts[i] = {(int)l[i]}; c.near(eliminate(restrictTo(r, opts)), best, 1e-6, "the certain labels belong to a globally optimal labeling");
   if(submodularTerms(r)) { bool unique = true; for(size_t i = 0; i < n && unique; ++i) if(!o[i]) unique = std::fabs(eliminate(clampTo(r, (int)i, 0)) - eliminate(clampTo(r, (int)i, 1))) < 1e-9; c.check(unique, "a variable of a submodular model is uncertain only if both labels are optimal"); } c.outcome(mc::mix(mc::bitsOf(best), cnt));
}
MC_SCENARIO("qpbo/ladder") {
   const int n = ladder(c, c.tier(65, 129)), shape = c.choose(SHAPES), kind = c.choose(3), alg = c.choose(3); RefModel r = ladderModel(shape, n, {2}, c.choose(2), true, c.flip()); for(auto& f : r.f) if(f.v.size() == 2) { double g = f.t[0] + f.t[3] - f.t[1] - f.t[2]; if(kind == 0 && g > 0) f.t[3] -= g; } else if(kind == 2) for(double& x : f.t) x /= 4;
   MC_TRACE(c, "shape " << shape << " size " << n << " kind " << kind); if(alg == 0) big<double, opengm::PUSH_RELABEL>(c, r); else if(alg == 1) big<double, opengm::EDMONDS_KARP>(c, r); else big<double, opengm::KOLMOGOROV>(c, r);
}
// long implication chains and rings, closed satisfiably or not
typedef opengm::GraphicalModel<bool, opengm::And, opengm::ExplicitFunction<bool>, opengm::DiscreteSpace<> > GB;
MC_SCENARIO("sat/ladder") {
   const int n = ladder(c, c.tier(129, 300), 2), kind = c.choose(6); RefModel r; r.L.assign(n, 2); auto forbid = [&](int a, int x, int b, int y) { RefFactor f; if(a > b) { std::swap(a, b); std::swap(x, y); } f.v = {a, b}; f.t.assign(4, 1); f.t[x + 2 * y] = 0; r.f.push_back(f); };
   for(int i = 0; i + 1 < n; ++i) { forbid(i, 1, i + 1, 0); if(kind % 2) forbid(i, 0, i + 1, 1); }       // i implies i+1, or equality
   if(kind / 2 == 1) forbid(0, 0, n - 1, 1); if(kind / 2 == 2) { forbid(0, 0, n - 1, 0); forbid(0, 1, n - 1, 1); if(c.flip()) forbid(0, 0, n - 1, 1); } if(c.flip()) std::reverse(r.f.begin(), r.f.end());
   RefModel q = r; for(auto& f : q.f) for(double& x : f.t) x = x ? 0 : 1; const bool any = eliminate(q) == 0; GB gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, "size " << n << " kind " << kind); opengm::SAT<GB> s(gm); c.eq((int)s.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step(); c.eq((bool)s.value(), any, "the value tells whether the formula is satisfiable"); c.outcome(any * 8 + kind);
}
