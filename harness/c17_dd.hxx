#ifndef C17_DD_HXX
#define C17_DD_HXX
#include "c17_stages.hxx"
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/dualdecomposition/dddualvariableblock.hxx>
#include <opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx>
namespace dd {
typedef GmOf<double, opengm::Adder>::type GM;
typedef opengm::DDDualVariableBlock<marray::Marray<double> > Block; typedef opengm::DDDualVariableBlock2<marray::View<double, false> > Views;
struct Way { int id, blocks, stepping, iterations; bool fill; double stride; std::vector<std::vector<size_t> > factors; std::vector<std::set<size_t> > variables; };
template<class P> static void set(P& p, const Way& w) { typedef opengm::DualDecompositionBaseParameter B; static const B::DecompositionId ids[] = {B::SPANNINGTREES, B::TREE, B::BLOCKS, B::KFANS, B::MANUAL, B::MANUALVARCLOSE, B::MANUALVAROPEN}; p.decompositionId_ = ids[w.id]; p.numberOfBlocks_ = w.blocks; p.k_ = w.blocks; p.maximalNumberOfIterations_ = w.iterations; p.fillSubLabelings_ = w.fill; p.stepsizeStride_ = w.stride; p.subFactors_ = w.factors; p.subVariables_ = w.variables; if(w.stepping == 1) p.useAdaptiveStepsize_ = true; else if(w.stepping == 2) p.useProjectedAdaptiveStepsize_ = true; else if(w.stepping == 3) p.stepsizePrimalDualGapStride_ = true; else if(w.stepping == 4) p.stepsizeNormalizedSubgradient_ = true; }
template<class BLOCK, template<class, class> class SUB, class ACC> static void one(mc::Ctx& c, const RefModel& r, const Way& w, bool again = false) {
   typedef typename opengm::DualDecompositionBase<GM, BLOCK>::SubGmType Sub; typedef opengm::DualDecompositionSubGradient<GM, SUB<Sub, ACC>, BLOCK> S; GM gm; build(gm, r); const bool maxi = IsMax<ACC>::value;
   MC_TRACE(c, r.str() << " decomposition " << w.id << " blocks " << w.blocks << " stepping " << w.stepping << " iterations " << w.iterations << " fill " << w.fill); c.state(mc::mix(r.hash(), mc::mix(w.id * 100 + w.blocks, w.stepping * 100 + w.iterations + w.fill * 50)));
   typename S::Parameter p; set(p, w); S s(gm, p); Stages<S, ACC> v(c, r, true); s.infer(v); c.step(); v.finish(s, w.iterations); c.check(w.iterations == v.calls || std::fabs(s.value() - s.bound()) <= 1e-12 * (1 + std::fabs(s.value())) , "inference stops early only when the gap is closed"); (void)maxi;
   if(again) { S t(gm, p); t.infer(); c.step(); c.eq(t.value(), s.value(), "value without a visitor"); c.eq(t.bound(), s.bound(), "bound without a visitor"); Stages<S, ACC> u(c, r, true); s.infer(u); u.finish(s, w.iterations); }
}
template<class BLOCK, template<class, class> class SUB> static void either(mc::Ctx& c, const RefModel& r, const Way& w, bool again = false) { if(c.flip()) one<BLOCK, SUB, opengm::Maximizer>(c, r, w, again); else one<BLOCK, SUB, opengm::Minimizer>(c, r, w, again); }
}
#endif
