// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c15_moves.hxx"
typedef GmOf<double, opengm::Adder>::type GD; typedef GmOf<float, opengm::Adder, unsigned, unsigned char>::type GF;
MC_SCENARIO("sum/min") { moveScenario<GD, opengm::Minimizer>(c, c.tier(3, 6), 2, {0, 1, 2, 3, 4, 5, 6}, true, 0, true); }
MC_SCENARIO("sum/max") { moveScenario<GD, opengm::Maximizer>(c, 6, 2, {1, 2, 3, 4}, c.thorough, 0, false); }
MC_SCENARIO("sum/min_deeper") { moveScenario<GF, opengm::Minimizer>(c, c.tier(3, 6), c.tier(3, 4), {1, 3, 2}, false, 0, false); }
MC_SCENARIO("sum/trials_between") { moveScenario<GD, opengm::Minimizer>(c, c.tier(2, 4), 3, {0, 3}, false, 0, false); }
