// FLAGS:
#include "c25_life.hxx"
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/icm.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/greedygremlin.hxx>
#include <opengm/inference/infandflip.hxx>
typedef GmOf<double, opengm::Adder>::type Sum; typedef GmOf<double, opengm::Multiplier>::type Prod;

template<class GM, class ACC, class F> void any(mc::Ctx& c, int maxOrder, F f) {
   int n = 1 + c.choose(c.thorough ? 4 : 3), k = n == 4 ? 3 : c.choose(c.tier(3, 4)); RefModel r = n == 4 ? anyModel(c, 4, {2}, k, 2, 2, 1) : anyModel(c, n, n < 3 ? std::vector<int>{2, 1, 3} : c.thorough ? std::vector<int>{2, 3} : std::vector<int>{2}, k, n == 3 ? 1 : 0, maxOrder, n < 3 ? 2 : 1);
   if(IsMult<typename GM::OperatorType>::value) makePositive(r, 6); GM gm; build(gm, r); f(r, gm);
}
template<class GM, class ACC> void moving(mc::Ctx& c, int kind) {
   any<GM, ACC>(c, 3, [&](const RefModel& r, const GM& gm) {
      typedef typename GM::LabelType L; std::vector<L> p; for(int x : r.L) p.push_back((L)(x - 1));
      if(kind == 0) { typedef opengm::ICM<GM, ACC> S; typename S::Parameter q(c.flip() ? S::FACTOR : S::SINGLE_VARIABLE); if(c.flip()) q.startPoint_ = p; life<S>(c, r, gm, q, START | RESET | MONO | MOVER, {1, 2}); }
      if(kind == 1) { typedef opengm::LazyFlipper<GM, ACC> S; int w = c.choose(3); typename S::Parameter q((size_t)(1 + w % 2), opengm::Tribool(w == 2 ? opengm::Tribool::True : opengm::Tribool::Maybe)); if(c.flip()) q.startingPoint_ = p; life<S>(c, r, gm, q, START | RESET | MONO | MOVER, {1, 2}); }
   });
}
template<class GM, class ACC> void rest(mc::Ctx& c, int kind) {
   any<GM, ACC>(c, 3, [&](const RefModel& r, const GM& gm) {
      if(kind == 0) { typedef opengm::Bruteforce<GM, ACC> S; typename S::Parameter q; life<S>(c, r, gm, q, RESET | EXACT, {1, 3}); }
      if(kind == 1) { typedef opengm::GreedyGremlin<GM, ACC> S; typename S::Parameter q; life<S>(c, r, gm, q, RESET | MONO | MAYBE, {1}); }
      if(kind == 2) { typedef opengm::InfAndFlip<GM, ACC, opengm::ICM<GM, ACC> > S; typename S::Parameter q((size_t)c.choose(3)); q.warmStartableInf_ = c.flip(); life<S>(c, r, gm, q, START | RESET | MONO | MAYBE | WHOLE | (q.maxSubgraphSize_ > 0 || q.warmStartableInf_ ? MOVER : 0), {1}); }
   });
}
MC_SCENARIO("icm") { moving<Sum, opengm::Minimizer>(c, 0); }
MC_SCENARIO("icm product") { moving<Prod, opengm::Maximizer>(c, 0); }
MC_SCENARIO("lazy flipper") { moving<Sum, opengm::Minimizer>(c, 1); }
MC_SCENARIO("lazy flipper product") { moving<Prod, opengm::Maximizer>(c, 1); }
MC_SCENARIO("brute force") { rest<Sum, opengm::Minimizer>(c, 0); }
MC_SCENARIO("brute force product") { rest<Prod, opengm::Maximizer>(c, 0); }
MC_SCENARIO("greedy search") { rest<Sum, opengm::Minimizer>(c, 1); }
MC_SCENARIO("infer and flip") { rest<Sum, opengm::Maximizer>(c, 2); }
