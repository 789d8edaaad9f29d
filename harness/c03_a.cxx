// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c03_values.hxx"
MC_SCENARIO("values/double_size_t") { Run<double, size_t, size_t>::go(c, c.choose(13)); }
