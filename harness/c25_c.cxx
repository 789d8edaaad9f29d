// FLAGS:
#include "c25_life.hxx"
#include "c16_moves.hxx"
#include <opengm/inference/graphcut.hxx>
#include <opengm/inference/qpbo.hxx>
typedef GmOf<double, opengm::Adder>::type Sum;
template<class GM, class ACC, BoostMaxFlowAlgorithm ALG = opengm::KOLMOGOROV> void cuts(mc::Ctx& c, int kind) {
   const bool max = IsMax<ACC>::value; typedef typename GM::LabelType L; int n = 1 + c.choose(3), lab = kind < 2 ? 2 + c.choose(c.tier(n < 3 ? 2 : 1, 2)) : 2, k = c.choose(c.tier(3, 4)) + (n == 3);
   RefModel r = labelModel(c, n, lab, k, max, kind == 1, c.tier(3, 5)); GM gm; build(gm, r);
   typedef opengm::GraphCut<GM, ACC, opengm::MinSTCutBoost<size_t, double, ALG> > Cut;
   if(kind == 0) { typedef opengm::AlphaExpansion<GM, Cut> S; typename S::Parameter q; int how = c.choose(max ? 2 : 4); if(how == 1) { q.labelInitialType_ = S::Parameter::EXPLICIT_LABEL; for(int x : r.L) q.label_.push_back((L)(x - 1)); } if(how == 2) q.labelInitialType_ = S::Parameter::LOCALOPT_LABEL; if(how == 3) { q.labelInitialType_ = S::Parameter::RANDOM_LABEL; q.randSeedLabel_ = 7; q.orderType_ = S::Parameter::RANDOM_ORDER; q.randSeedOrder_ = 3; } if(how == 1) { q.orderType_ = S::Parameter::EXPLICIT_ORDER; for(int x = lab; x--; ) q.labelOrder_.push_back((L)x); }
      life<S>(c, r, gm, q, START | RESET | MONO | MOVER, {1, 2}); }
   if(kind == 1) { typedef opengm::AlphaBetaSwap<GM, Cut> S; typename S::Parameter q; life<S>(c, r, gm, q, START | RESET | MONO | MOVER, {1, 2}); }
   if(kind == 2) { typedef Cut S; typename S::Parameter q; life<S>(c, r, gm, q, EXACT | MAYBE, {1}); }
   if(kind == 3) { typedef opengm::QPBO<GM, opengm::MinSTCutBoost<size_t, double, ALG> > S; typename S::Parameter q; life<S>(c, r, gm, q, EXACT | MAYBE, {1}); }
}
MC_SCENARIO("alpha expansion") { cuts<Sum, opengm::Minimizer>(c, 0); }
MC_SCENARIO("alpha expansion max") { cuts<Sum, opengm::Maximizer>(c, 0); }
MC_SCENARIO("alpha beta swap") { cuts<Sum, opengm::Minimizer>(c, 1); }
MC_SCENARIO("alpha beta swap max") { cuts<Sum, opengm::Maximizer>(c, 1); }
MC_SCENARIO("graph cut") { cuts<Sum, opengm::Minimizer>(c, 2); }
MC_SCENARIO("graph cut push relabel") { cuts<Sum, opengm::Maximizer, opengm::PUSH_RELABEL>(c, 2); }
MC_SCENARIO("graph cut edmonds karp") { cuts<Sum, opengm::Minimizer, opengm::EDMONDS_KARP>(c, 2); }
MC_SCENARIO("qpbo") { cuts<Sum, opengm::Minimizer>(c, 3); }
