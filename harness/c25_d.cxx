// FLAGS:
#include "c25_life.hxx"
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/integrator.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
typedef GmOf<double, opengm::Adder>::type Sum; typedef GmOf<double, opengm::Multiplier>::type Prod;
template<class GM, class ACC, template<class, class, class> class RULES> void messages(mc::Ctx& c) {
   int n = 1 + c.choose(3), k = c.choose(c.tier(3, 4)); RefModel r = anyModel(c, n, n < 3 ? std::vector<int>{2, 1, 3} : c.thorough ? std::vector<int>{2, 3} : std::vector<int>{2}, k, n == 3 ? 1 : 0, 3, 1 + (n < 3));
   if(IsMult<typename GM::OperatorType>::value) makePositive(r, 6); GM gm; build(gm, r);
   typedef opengm::MessagePassing<GM, ACC, RULES<GM, ACC, opengm::MessageBuffer<marray::Marray<double> > >, opengm::MaxDistance> S; typename S::Parameter q; q.maximumNumberOfSteps_ = 3; int how = c.choose(4);
   if(how) q.isAcyclic_ = opengm::Tribool::False; q.inferSequential_ = how == 2; if(how == 3) q.damping_ = 0.5; if(how == 0) q.maximumNumberOfSteps_ = 5;
   if(how == 2 && c.flip()) for(int i = n; i--; ) q.sortedNodeList_.push_back(i);
   life<S>(c, r, gm, q, RESET, {1, 2});
}
template<class GM, class ACC, class T> using Bp = opengm::BeliefPropagationUpdateRules<GM, ACC, T>;
template<class GM, class ACC, class T> using Trbp = opengm::TrbpUpdateRules<GM, ACC, T>;
MC_SCENARIO("message passing") { messages<Sum, opengm::Minimizer, Bp>(c); }
MC_SCENARIO("message passing product") { messages<Prod, opengm::Maximizer, Bp>(c); }
MC_SCENARIO("reweighted message passing") { messages<Sum, opengm::Minimizer, Trbp>(c); }
