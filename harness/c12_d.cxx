// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c12_messages.hxx"
#include "ladder.hxx"
// larger trees: labelings and some marginals, against variable elimination
template<class GM, class ACC, template<class, class, class> class RULES> static void big(mc::Ctx& c, const RefModel& r, int kind, int norm, bool labels) {
   const bool mult = IsMult<typename GM::OperatorType>::value, maxi = IsMax<ACC>::value, sum = IsSum<ACC>::value; const int n = (int)r.L.size(); GM gm; build(gm, r); c.state(r.hash());
   typedef RULES<GM, ACC, opengm::MessageBuffer<marray::Marray<double> > > R; typedef opengm::MessagePassing<GM, ACC, R, opengm::MaxDistance> BP; typename BP::Parameter p; p.maximumNumberOfSteps_ = n + 2; p.isAcyclic_ = kind == 0 ? opengm::Tribool::Maybe : opengm::Tribool::False; p.inferSequential_ = kind == 2; p.useNormalization_ = norm ? opengm::Tribool::True : opengm::Tribool::False;
   if(kind == 2) for(int i = 0; i < n; ++i) p.sortedNodeList_.push_back(n - 1 - i);
   BP bp(gm, p); c.eq((int)bp.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step(); MC_TRACE(c, n << " variables, schedule " << kind);
   for(int v : std::set<int>{0, n / 2, n - 1}) { typename GM::IndependentFactorType out; c.eq((int)bp.marginal(v, out), (int)opengm::NORMAL, "marginal is available"); c.eq((size_t)out.size(), (size_t)r.L[v], "size of the marginal"); std::vector<double> e, g; for(int l = 0; l < r.L[v]; ++l) { e.push_back(eliminate(clampTo(r, v, l), mult, maxi, sum)); g.push_back(out(l)); } normalise<ACC>(e, mult); if(!norm) normalise<ACC>(g, mult); for(size_t i = 0; i < g.size(); ++i) c.near(g[i], e[i], 1e-7, "marginal of a variable"); }
   if(labels) { std::vector<typename GM::LabelType> l; c.eq((int)bp.arg(l), (int)opengm::NORMAL, "labeling is available"); c.check(validLabeling(r, l), "labeling is complete and in range"); double best = eliminate(r, mult, maxi); c.near(r.eval(toInt(l), mult), best, 1e-9 * (1 + std::fabs(best)), "value of the labeling is the optimum"); c.outcome(mc::bitsOf(best)); }
}
template<template<class, class, class> class RULES> static void bigs(mc::Ctx& c, bool products, int most) {
   typedef typename GmOf<double, opengm::Adder>::type GA; typedef typename GmOf<double, opengm::Multiplier>::type GX;
   const int shape = c.pick(std::vector<int>{CHAIN, STAR, BINARY_TREE, CATERPILLAR, BACKWARD}), n = ladder(c, most); const int k = c.choose(products ? 4 : 2), kind = c.pick(std::vector<int>{0, 1, 2}); if(kind == 1 && n > 40) c.prune(); if(kind == 2 && n > 20) c.prune();
   RefModel r = ladderModel(shape, n, c.pick(std::vector<std::vector<int> >{{2}, {2, 3, 1}}), c.choose(2), true, c.flip()); if(k >= 2) nearOne(r); MC_TRACE(c, "shape " << shape);
   switch(k) { case 0: big<GA, opengm::Minimizer, RULES>(c, r, kind, c.flip(), true); break; case 1: big<GA, opengm::Maximizer, RULES>(c, r, kind, 1, true); break; case 2: big<GX, opengm::Maximizer, RULES>(c, r, kind, 1, true); break; default: big<GX, opengm::Integrator, RULES>(c, r, kind, 1, false); }
}
MC_SCENARIO("bp/ladder") { bigs<opengm::BeliefPropagationUpdateRules>(c, true, c.tier(65, 200)); }
MC_SCENARIO("trbp/ladder") { bigs<opengm::TrbpUpdateRules>(c, true, c.tier(33, 65)); }
