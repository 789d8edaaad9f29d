// FLAGS:
#include "c25_life.hxx"
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
typedef GmOf<double, opengm::Adder>::type Sum; typedef GmOf<double, opengm::Multiplier>::type Prod;

template<class GM, class ACC> void exact(mc::Ctx& c, int kind) {
   int n = 1 + c.choose(3), k = c.choose(c.tier(3, 4)); RefModel r = anyModel(c, n, n < 3 ? std::vector<int>{2, 1, 3} : c.thorough ? std::vector<int>{2, 3} : std::vector<int>{2}, k, n == 3 ? 1 : 0, kind ? 2 : 3, 1 + (n < 3)); if(kind && !refAcyclic(r)) c.prune();
   if(IsMult<typename GM::OperatorType>::value) makePositive(r, 6); GM gm; build(gm, r);
   if(kind == 0) {
      typedef opengm::AStar<GM, ACC> S; typename S::Parameter q; q.heuristic_ = c.choose(3); size_t all = 1; for(int x : r.L) all *= x; q.numberOfOpt_ = 1 + c.choose((int)std::min<size_t>(2, all)); if(q.heuristic_ == S::Parameter::FASTHEURISTIC && refOrder(r) > 2) c.prune();
      life<S>(c, r, gm, q, RESET | EXACT | MAYBE | NOSTOP | (q.numberOfOpt_ > 1 ? NOBOUND : 0), {1, 2});
   } else { typedef opengm::DynamicProgramming<GM, ACC> S; typename S::Parameter q; if(c.flip()) q.roots_.push_back(n - 1); life<S>(c, r, gm, q, EXACT, {1}); }
}
MC_SCENARIO("a star") { exact<Sum, opengm::Minimizer>(c, 0); }
MC_SCENARIO("a star product") { exact<Prod, opengm::Maximizer>(c, 0); }
MC_SCENARIO("dynamic programming") { exact<Sum, opengm::Maximizer>(c, 1); }
