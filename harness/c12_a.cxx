// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c12_messages.hxx"
// belief propagation
MC_SCENARIO("bp/forests") {
   int n = c.range(1, 3); int k = c.range(0, c.tier(3, 4)); RefModel r = anyModel(c, n, n < 3 || c.thorough ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 3}, k, 0, 3, k < 3 || c.thorough ? 2 : 1); if(!refAcyclic(r)) c.prune();
   Schedule s = anySchedule(c, n, true); semiring<opengm::BeliefPropagationUpdateRules>(c, r, s, c.choose(5));
}
MC_SCENARIO("bp/trees") {   // four or five variables
   static const Scopes st[] = {{{0, 1}, {1, 2}, {2, 3}, {0}, {3}}, {{0, 1}, {0, 2}, {0, 3}, {1}}, {{0, 1, 2}, {2, 3}, {0}}, {{1, 3}, {0, 3}, {2, 4}, {3, 4}}, {{0, 2, 4}, {1, 4}, {3, 4}}, {{0, 1}, {2, 3}, {4}, {1, 2}}, {{0, 1, 2, 3}, {1}, {3, 4}}};
   int q = c.choose(7); static const int L[3][5] = {{2, 2, 2, 2, 2}, {2, 3, 2, 3, 2}, {3, 1, 2, 2, 3}};
   int n = 0; for(auto& v : st[q]) for(int x : v) n = std::max(n, x + 1);
   int a = c.choose(3); RefModel r = fixedModel(std::vector<int>(L[a], L[a] + n), st[q]);
   for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, c.choose(c.tier(2, 5)));
   Schedule s = anySchedule(c, n, true); semiring<opengm::BeliefPropagationUpdateRules>(c, r, s, c.choose(5));
}
