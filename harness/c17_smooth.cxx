// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -Wno-deprecated-declarations
// C17: dual solvers with smoothing; bounds, values and marginals at every stage of every run on every small model.
#include "c17_stages.hxx"
#include <opengm/inference/trws/trws_adsal.hxx>
#include <opengm/inference/trws/smooth_nesterov.hxx>
typedef GmOf<double, opengm::Adder>::type GM;
struct Options { int structure, external, internal, presolve, strategy, step; double start; bool absolute, canonical, lazyLp, lazyDerivative, fast, plain; std::string str() const { std::ostringstream s; s << " structure " << structure << " external " << external << " internal " << internal << " presolve " << presolve << " strategy " << strategy << " step " << step << " start " << start << " absolute " << absolute << " canonical " << canonical << " lazy " << lazyLp << lazyDerivative << " fast " << fast << " plain " << plain; return s.str(); } };
template<class P> static void common(P& p, const Options& o) { typedef typename P::Storage St; typedef typename P::SmoothingParametersType SP; p.maxNumberOfIterations() = o.external; p.setPrecision(o.strategy == 2 || o.strategy == 3 ? 0.01 : 1e-9); p.isAbsolutePrecision() = o.absolute; p.numberOfInternalIterations() = o.internal; p.decompositionType() = o.structure ? St::EDGESTRUCTURE : St::GENERALSTRUCTURE; p.setStartSmoothingValue(o.start); p.maxNumberOfPresolveIterations() = o.presolve; p.setCanonicalNormalization(o.canonical); p.lazyLPPrimalBoundComputation() = o.lazyLp; p.setFastComputations(o.fast); p.smoothingStrategy() = o.strategy == 0 ? SP::ADAPTIVE_DIMINISHING : o.strategy == 1 ? SP::WC_DIMINISHING : o.strategy == 2 ? SP::ADAPTIVE_PRECISIONORIENTED : o.strategy == 3 ? SP::WC_PRECISIONORIENTED : SP::FIXED; }
template<class GM> static void special(opengm::ADSal_Parameter<GM>& p, const Options& o) { p.lazyDerivativeComputation() = o.lazyDerivative; }
template<class GM> static void special(opengm::Nesterov_Parameter<GM>& p, const Options& o) { typedef opengm::Nesterov_Parameter<GM> P; p.gradientStep_ = o.step == 0 ? P::ADAPTIVE_STEP : o.step == 1 ? P::WC_STEP : P::JOJIC_STEP; p.plainGradient_ = o.plain; }
template<class S, class ACC> static void one(mc::Ctx& c, const RefModel& r, const Options& o) {
   GM gm; build(gm, r); MC_TRACE(c, r.str() << o.str()); c.state(mc::mix(r.hash(), std::hash<std::string>()(o.str()))); const bool maxi = IsMax<ACC>::value;
   typename S::Parameter p; common(p, o); special(p, o); S s(gm, p); Stages<S, ACC> v(c, r, false); const double tol = 1e-6 * (1 + std::fabs(v.opt));
   v.onLog = [&](const std::string& n, double x) { if(n != "primalLPbound") return; c.check(maxi ? x <= s.bound() + tol : x >= s.bound() - tol, "the primal bound of the relaxation is not better than the dual bound"); };
   s.infer(v); c.step(); v.finish(s, 0); c.check(v.calls <= o.external + 1 + (o.start > 0 ? 0 : o.presolve + 1), "not more visits than iterations");
   for(size_t x = 0; x < r.L.size() && o.start > 0; ++x) { typename S::IndependentFactorType m; c.eq((int)s.marginal(x, m), (int)opengm::NORMAL, "marginal is available"); c.eq((int)m.size(), r.L[x], "one number per label"); double t = 0; for(int l = 0; l < r.L[x]; ++l) { c.check(m(l) >= -1e-9, "marginals are not negative"); t += m(l); } c.near(t, 1, 1e-6, "marginals sum to one"); }
   if(refAcyclic(r) && o.external >= 30 && o.start > 0 && o.strategy == 4 && !(o.step == 2)) { double slack = 0; for(size_t f = 0; f < r.f.size(); ++f) slack += std::log((double)r.tableSize(r.f[f].v)); c.check(std::fabs(s.bound() - v.opt) <= o.start * slack + 1e-3, "with a fixed smoothing the bound on acyclic models is as close as the smoothing permits"); }
   c.outcome(mc::bitsOf(s.bound() == s.value()));
}
typedef opengm::ADSal<GM, opengm::Minimizer> AMin; typedef opengm::ADSal<GM, opengm::Maximizer> AMax; typedef opengm::NesterovAcceleratedGradient<GM, opengm::Minimizer> NMin; typedef opengm::NesterovAcceleratedGradient<GM, opengm::Maximizer> NMax;
// a bounded set of option combinations: a base, with every pair of deviations
static Options options(mc::Ctx& c, bool nesterov, int pairs) {
   Options o{0, 3, 2, 3, 0, 0, 0.0, true, true, true, false, true, false};
   for(int k = 0; k < pairs; ++k) switch(c.choose(nesterov ? 15 : 14)) { case 0: break; case 1: o.structure = 1; break; case 2: o.external = 1; break; case 3: o.external = 8; break; case 4: o.internal = 1; break; case 5: o.presolve = 1; break; case 6: o.presolve = 50; break; case 7: o.strategy = 1; break; case 8: o.strategy = 2; break; case 9: o.strategy = 3; break; case 10: o.strategy = 4; o.start = 0.5; break; case 11: o.start = 0.25; if(o.strategy == 3) o.strategy = 0; break; case 12: o.canonical = false; o.fast = false; break; case 13: o.lazyLp = false; o.lazyDerivative = nesterov; break; case 14: o.step = 1; break; }
   if(o.strategy == 3) o.start = 0; if(nesterov) { o.plain = c.flip(); if(o.step == 1 && c.flip()) o.step = 2; } else o.lazyDerivative = c.flip(); if(o.strategy < 2) o.absolute = c.flip(); return o;
}
#define BOTH(r, n, pairs) do { const bool nest = n; Options o = options(c, nest, pairs); const bool maxi = c.flip(); if(nest) { if(maxi) one<NMax, opengm::Maximizer>(c, r, o); else one<NMin, opengm::Minimizer>(c, r, o); } else { if(maxi) one<AMax, opengm::Maximizer>(c, r, o); else one<AMin, opengm::Minimizer>(c, r, o); } } while(0)
MC_SCENARIO("smooth/pair") { RefModel r = withUnaries({2, c.range(1, 3)}, {{0, 1}}, c.flip()); for(int i = 0; i < 3; ++i) fillPattern(r, i, c.choose(3)); BOTH(r, c.flip(), c.tier(1, 2)); }
MC_SCENARIO("smooth/triangle") { RefModel r = withUnaries({2, 2, 2}, {{0, 1}, {0, 2}, {1, 2}}); for(int i = 0; i < 6; ++i) { if(r.f[i].v.size() == 1) fillPattern(r, i, i == 0 ? c.choose(3) : 2); else { double s = c.pick(std::vector<double>{1, -1}), t = c.pick(std::vector<double>{0, 0.5}); r.f[i].t = {0, s, t + s, 0}; } } BOTH(r, c.flip(), 2); }
MC_SCENARIO("smooth/any") { RefModel r = anyPairwise(c, c.range(1, 4), {2, 1, 3}, c.range(0, c.tier(3, 4)), 3); BOTH(r, c.flip(), 1); }
MC_SCENARIO("smooth/acyclic") { RefModel r = withUnaries({2, 2, c.range(2, 3)}, c.flip() ? Scopes{{0, 1}, {1, 2}} : Scopes{{0, 2}, {1, 2}}); int p = c.choose(4); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, i == 3 ? c.choose(5) : p); bool nest = c.flip(); Options o{c.choose(2), 60, 5, 3, 4, 0, c.flip() ? 0.5 : 0.1, true, c.flip(), true, false, true, false}; if(nest) { o.step = c.choose(2); o.plain = c.flip(); } if(nest) { if(c.flip()) one<NMax, opengm::Maximizer>(c, r, o); else one<NMin, opengm::Minimizer>(c, r, o); } else { if(c.flip()) one<AMax, opengm::Maximizer>(c, r, o); else one<AMin, opengm::Minimizer>(c, r, o); } }
