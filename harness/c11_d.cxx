// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c11_exact.hxx"
#include "ladder.hxx"
typedef GmOf<double, opengm::Adder>::type GA; typedef GmOf<double, opengm::Multiplier>::type GX; typedef GmOf<double, opengm::Adder, unsigned, unsigned char>::type GB;
template<class GM, class ACC> static void ladderDp(mc::Ctx& c, const RefModel& r, const std::vector<int>& roots) {
   const bool mult = IsMult<typename GM::OperatorType>::value, maxi = IsMax<ACC>::value; GM gm; build(gm, r); c.state(r.hash()); typedef opengm::DynamicProgramming<GM, ACC> S; typename S::Parameter p; for(int x : roots) p.roots_.push_back(x);
   S s(gm, p); c.eq((int)s.infer(), (int)opengm::NORMAL, "dynamic programming succeeds"); c.step(); optimal(c, r, s, mult, maxi, "dynamic programming");
}
static void ladderAstar(mc::Ctx& c, const RefModel& r, size_t heuristic) { GA gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.L.size() << " variables, heuristic " << heuristic); typedef opengm::AStar<GA, opengm::Minimizer> S; S::Parameter p; p.heuristic_ = heuristic; S s(gm, p); c.eq((int)s.infer(), (int)opengm::NORMAL, "A* succeeds"); c.step(); optimal(c, r, s, false, false, "A*"); }
// the optimum of larger models, against variable elimination
MC_SCENARIO("ladder/trees") {
   const int shape = c.pick(std::vector<int>{CHAIN, STAR, BINARY_TREE, CATERPILLAR, BACKWARD, FORESTS}), n = ladder(c, c.tier(129, 300)); const bool unaries = c.flip(), between = unaries && c.flip(); const int k = c.choose(5);
   RefModel r = ladderModel(shape, n, c.pick(std::vector<std::vector<int> >{{2}, {2, 3, 1}, {5, 2}}), c.choose(2), unaries, between); if(k == 2 || k == 3) nearOne(r); std::vector<int> roots; int w = c.choose(2); if(w && shape != FORESTS) roots = {n / 2}; else if(w) c.prune();
   MC_TRACE(c, "shape " << shape << " size " << n);
   switch(k) { case 0: ladderDp<GA, opengm::Minimizer>(c, r, roots); break; case 1: ladderDp<GA, opengm::Maximizer>(c, r, roots); break; case 2: ladderDp<GX, opengm::Minimizer>(c, r, roots); break; case 3: ladderDp<GX, opengm::Maximizer>(c, r, roots); break; default: ladderDp<GB, opengm::Minimizer>(c, r, roots); }
}
MC_SCENARIO("ladder/labels") {   // few variables, many labels
   const int L = ladder(c, c.tier(513, 1025), 2), k = c.choose(3), at = c.choose(4); RefModel r = ladderModel(CHAIN, k + 1, {L, 3, 2}, c.choose(2)); if(at) for(auto& f : r.f) if(f.v == std::vector<int>{0}) f.t[at == 1 ? 0 : at == 2 ? L - 1 : L / 2] = -100; std::vector<int> roots; if(c.flip()) roots = {k ? 1 : 0}; ladderDp<GA, opengm::Minimizer>(c, r, roots);
   if(L > 257) return; RefModel q = ladderModel(CHAIN, 2, {L, 3}, 0); if(at) for(auto& f : q.f) if(f.v == std::vector<int>{0}) { f.t[at == 1 ? 0 : at == 2 ? L - 1 : L / 2] = k ? 100 : -100; } bruteforce<GA, opengm::Maximizer>(c, q); ladderAstar(c, q, 2);
}
MC_SCENARIO("ladder/brute force") { const int n = c.range(5, c.tier(11, 14)); RefModel r = ladderModel(c.choose(SHAPES), n, {2}, c.choose(2)); bruteforce<GA, opengm::Minimizer>(c, r); }
MC_SCENARIO("ladder/A*") { const int n = c.range(4, c.tier(16, 24)), shape = c.pick(std::vector<int>{CHAIN, STAR, BINARY_TREE, CATERPILLAR, BACKWARD, FORESTS, RING}); RefModel r = ladderModel(shape, n, c.pick(std::vector<std::vector<int> >{{2}, {2, 3}}), c.choose(2), true, c.flip()); ladderAstar(c, r, c.range(1, 2)); }
