// FLAGS:
// Settings survive the conversion of a solver's parameters to those of the same solver for another model type.
#include "c25_life.hxx"
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/integrator.hxx>
#include <opengm/inference/icm.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/alphaexpansion.hxx>
#include <opengm/inference/alphabetaswap.hxx>
#include <opengm/inference/graphcut.hxx>
#include <opengm/inference/auxiliary/minstcutboost.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/infandflip.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
typedef GmOf<double, opengm::Adder>::type A; typedef GmOf<float, opengm::Adder, unsigned, unsigned char>::type B; typedef opengm::Minimizer Min;
template<class S> struct Other { typedef typename S::template RebindGm<B>::type type; };
template<class V, class W> void seq(mc::Ctx& c, const V& a, const W& b, const char* what) { c.check(std::vector<size_t>(a.begin(), a.end()) == std::vector<size_t>(b.begin(), b.end()), what); }
template<class V> void anySeq(mc::Ctx& c, V& v) { v.clear(); int n = c.choose(3); for(int i = 0; i < n; ++i) v.push_back((typename V::value_type)c.choose(3)); }
#define SAME(x) c.check(p.x == q.x, "setting " #x " survives")
#define KEPT(x) seq(c, p.x, q.x, "setting " #x " survives")
MC_SCENARIO("settings/icm") { typedef opengm::ICM<A, Min> S; typedef Other<S>::type T; S::Parameter p; p.moveType_ = c.flip() ? S::FACTOR : S::SINGLE_VARIABLE; anySeq(c, p.startPoint_); T::Parameter q(p); c.eq((int)p.moveType_, (int)q.moveType_, "move type survives"); KEPT(startPoint_); }
MC_SCENARIO("settings/lazy flipper") { typedef opengm::LazyFlipper<A, Min> S; typedef Other<S>::type T; std::vector<size_t> st; anySeq(c, st); S::Parameter p((size_t)(1 + c.choose(3))); p.startingPoint_.assign(st.begin(), st.end()); int m = c.choose(3); p.inferMultilabel_ = m == 0 ? opengm::Tribool::True : m == 1 ? opengm::Tribool::False : opengm::Tribool::Maybe; T::Parameter q(p); SAME(maxSubgraphSize_); KEPT(startingPoint_); c.check(!(p.inferMultilabel_ != q.inferMultilabel_), "setting survives"); }
typedef opengm::MinSTCutBoost<size_t, double, opengm::PUSH_RELABEL> Cut;
typedef opengm::GraphCut<A, Min, Cut> GcA; typedef opengm::GraphCut<B, Min, Cut> GcB;
MC_SCENARIO("settings/graph cut") { GcA::Parameter p((double)(1 + c.choose(3))); GcB::Parameter q(p); SAME(scale_); }
MC_SCENARIO("settings/expansion") {
   typedef opengm::AlphaExpansion<A, GcA> S; typedef opengm::AlphaExpansion<B, GcB> T; GcA::Parameter g((double)(1 + c.choose(2))); S::Parameter p((size_t)(1 + c.choose(3)), g); p.labelInitialType_ = (S::Parameter::LabelingIntitialType)c.choose(4); p.orderType_ = (S::Parameter::OrderType)c.choose(3); p.randSeedOrder_ = c.choose(2); p.randSeedLabel_ = c.choose(2); anySeq(c, p.labelOrder_); anySeq(c, p.label_);
   T::Parameter q(p); c.check(p.parameter_.scale_ == q.parameter_.scale_, "inner settings survive"); SAME(maxNumberOfSteps_); c.eq((int)p.labelInitialType_, (int)q.labelInitialType_, "kind of start survives"); c.eq((int)p.orderType_, (int)q.orderType_, "kind of order survives"); SAME(randSeedOrder_); SAME(randSeedLabel_); KEPT(labelOrder_); KEPT(label_);
}
MC_SCENARIO("settings/swap") { typedef opengm::AlphaBetaSwap<A, GcA> S; typedef opengm::AlphaBetaSwap<B, GcB> T; S::Parameter p; p.parameter_.scale_ = 1 + c.choose(3); p.maxNumberOfIterations_ = c.choose(4); T::Parameter q(p); SAME(maxNumberOfIterations_); c.check(p.parameter_.scale_ == q.parameter_.scale_, "inner settings survive"); }
MC_SCENARIO("settings/a*") { typedef opengm::AStar<A, Min> S; typedef Other<S>::type T; S::Parameter p; p.maxHeapSize_ = c.choose(3); p.numberOfOpt_ = c.choose(3); p.objectiveBound_ = c.choose(3); p.heuristic_ = c.choose(3); anySeq(c, p.nodeOrder_); anySeq(c, p.treeFactorIds_); T::Parameter q(p); SAME(maxHeapSize_); SAME(numberOfOpt_); SAME(objectiveBound_); SAME(heuristic_); KEPT(nodeOrder_); KEPT(treeFactorIds_); }
MC_SCENARIO("settings/dynamic programming") { typedef opengm::DynamicProgramming<A, Min> S; S::Parameter p; anySeq(c, p.roots_); S::Parameter q; { const S::Parameter& o = p; q = S::Parameter(o); } KEPT(roots_); }
MC_SCENARIO("settings/message passing") {
   typedef opengm::MessagePassing<A, Min, opengm::BeliefPropagationUpdateRules<A, Min>, opengm::MaxDistance> S; typedef opengm::MessagePassing<B, Min, opengm::BeliefPropagationUpdateRules<B, Min>, opengm::MaxDistance> T; S::Parameter p; p.maximumNumberOfSteps_ = c.choose(3); p.bound_ = c.choose(2); p.damping_ = c.choose(2) * 0.5; p.inferSequential_ = c.flip(); p.useNormalization_ = c.flip(); int m = c.choose(3); p.isAcyclic_ = m == 0 ? opengm::Tribool::True : m == 1 ? opengm::Tribool::False : opengm::Tribool::Maybe; anySeq(c, p.sortedNodeList_);
   T::Parameter q(p); SAME(maximumNumberOfSteps_); SAME(bound_); SAME(damping_); SAME(inferSequential_); KEPT(sortedNodeList_); c.check(!(p.useNormalization_ != q.useNormalization_) && !(p.isAcyclic_ != q.isAcyclic_), "settings survive");
}
MC_SCENARIO("settings/inference and flip") { typedef opengm::ICM<A, Min> I; typedef opengm::ICM<B, Min> J; typedef opengm::InfAndFlip<A, Min, I> S; typedef opengm::InfAndFlip<B, Min, J> T; S::Parameter p; p.maxSubgraphSize_ = c.choose(3); p.warmStartableInf_ = c.flip(); p.subPara_.moveType_ = c.flip() ? I::FACTOR : I::SINGLE_VARIABLE; anySeq(c, p.subPara_.startPoint_); T::Parameter q(p); SAME(maxSubgraphSize_); SAME(warmStartableInf_); c.eq((int)p.subPara_.moveType_, (int)q.subPara_.moveType_, "inner settings survive"); KEPT(subPara_.startPoint_); }
