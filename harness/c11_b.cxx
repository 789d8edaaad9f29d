// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c11_exact.hxx"
typedef GmOf<double, opengm::Adder>::type GA; typedef GmOf<double, opengm::Multiplier>::type GX;
// A*, factors of order three
MC_SCENARIO("astar/order3") {
   int n = c.range(3, 4); RefModel r = anyModel(c, n, n == 4 ? std::vector<int>{2} : std::vector<int>{1, 2, 3}, c.range(1, 3), n == 4 ? 2 : 1, 3, c.tier(1, 2), true); if(refOrder(r) < 3) c.prune();
   std::vector<int> o; if(c.thorough) o = anyOrder(c, n, true); else if(c.flip()) for(int i = 0; i < n; ++i) o.push_back(i);
   astar<GA, opengm::Minimizer>(c, r, c.range(0, 2), o, {}, c.pick(std::vector<int>{1, 4}));
}
MC_SCENARIO("astar/product") {
   int n = c.range(1, 3); RefModel r = anyModel(c, n, {2, 3}, c.range(1, 3), 0, c.tier(2, 3), 2); makePositive(r);
   if(c.flip()) astar<GX, opengm::Maximizer>(c, r, c.range(0, 2), {}, {}, 2); else astar<GX, opengm::Minimizer>(c, r, c.range(0, 2), {}, {}, 2);
}
MC_SCENARIO("astar/maximise") {
   int n = c.range(1, 3); RefModel r = anyModel(c, n, {2, 3}, c.range(1, 3), 0, c.tier(2, 3), 3);
   astar<GA, opengm::Maximizer>(c, r, c.range(0, 2), {}, {}, 2);
}
