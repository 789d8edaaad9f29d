// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c12_messages.hxx"
MC_SCENARIO("bp/values") {   // ties: every table over two values
   static const Scopes st[] = {{{0, 1}, {1, 2}, {0}}, {{0, 1}, {1, 2}, {2, 3}}, {{0, 1, 2}, {1}}, {{0, 2}, {1, 2}, {2, 3}}};
   int q = c.choose(4); int n = 0; for(auto& v : st[q]) for(int x : v) n = std::max(n, x + 1); if(n == 4 && !c.thorough && q != 1) c.prune();
   RefModel r = fixedModel(std::vector<int>(n, 2), st[q]); for(size_t i = 0; i < r.f.size(); ++i) fillAll(c, r, (int)i, {0, 1});
   Schedule s; s.kind = c.range(0, 2); s.damping = 0; s.norm = 1; s.steps = 2 * n + 2;
   int k = c.choose(3); semiring<opengm::BeliefPropagationUpdateRules>(c, r, s, k);
}
MC_SCENARIO("bp/log_sum") {
   typedef GmOf<double, opengm::Adder>::type GA;
   int n = c.range(1, 3); RefModel r = anyModel(c, n, {2, 3}, c.range(1, 3), 0, 3, 2); if(!refAcyclic(r)) c.prune();
   Schedule s = anySchedule(c, n, true); messages<GA, opengm::Logsumexp, opengm::BeliefPropagationUpdateRules>(c, r, s, false);
}
MC_SCENARIO("bp/types") {
   typedef GmOf<float, opengm::Adder, unsigned, unsigned char>::type GF;
   int n = c.range(1, 3); RefModel r = anyModel(c, n, {1, 3}, c.range(1, c.tier(2, 3)), 0, 3, 3); if(!refAcyclic(r)) c.prune();
   Schedule s = anySchedule(c, n, true); if(s.damping) c.prune(); messages<GF, opengm::Minimizer, opengm::BeliefPropagationUpdateRules>(c, r, s, true);
}
