// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c04_summaries.hxx"
#include "c04_equal.hxx"
// equality of any two functions of one type
MC_SCENARIO("equality") { equality(c, c.pick(std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11})); }
