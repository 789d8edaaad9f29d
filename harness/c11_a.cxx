// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c11_exact.hxx"
typedef GmOf<double, opengm::Adder>::type GA; typedef GmOf<double, opengm::Multiplier>::type GX;
// brute force: any structure
MC_SCENARIO("bruteforce") {
   int n = c.range(0, c.tier(3, 4)); RefModel r = anyModel(c, n, {1, 2, 3}, c.range(0, 2), 0, 3, 4); int k = c.choose(4);
   if(k >= 2) makePositive(r);
   switch(k) { case 0: bruteforce<GA, opengm::Minimizer>(c, r); break; case 1: bruteforce<GA, opengm::Maximizer>(c, r); break; case 2: bruteforce<GX, opengm::Minimizer>(c, r); break; default: bruteforce<GX, opengm::Maximizer>(c, r); }
}
// A*, pairwise models, fast heuristic
MC_SCENARIO("astar/pairwise") {
   int n = c.range(1, 3); RefModel r = anyModel(c, n, c.thorough ? std::vector<int>{1, 2, 3} : std::vector<int>{2, 3}, c.range(1, 3), 0, 2, c.tier(2, 4));
   std::vector<int> o = anyOrder(c, n, true); std::vector<int> t = anyTree(c, r);
   astar<GA, opengm::Minimizer>(c, r, c.range(c.thorough ? 0 : 1, 2), o, t, c.thorough ? c.pick(std::vector<int>{1, 3, 30}) : 30);
}
MC_SCENARIO("astar/values") {   // every table
   static const Scopes st[] = {{{0}, {1}, {0, 1}}, {{0, 1}, {0, 1}}, {{0, 1}, {1, 2}, {}}, {{0, 1}, {0, 2}, {1, 2}}};
   int q = c.choose(4); RefModel r = fixedModel(q < 2 ? std::vector<int>{2, 2} : std::vector<int>{2, 2, 2}, st[q]);
   for(size_t i = 0; i < r.f.size(); ++i) fillAll(c, r, (int)i, q == 3 ? std::vector<double>{0, 1} : c.thorough ? std::vector<double>{-1, 0, 2} : r.f.size() == 2 ? std::vector<double>{-1, 0, 2} : std::vector<double>{-1, 2});
   astar<GA, opengm::Minimizer>(c, r, c.range(1, 2), {}, {}, c.pick(std::vector<int>{1, 8}));
}
