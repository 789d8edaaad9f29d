// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c03_values.hxx"
MC_SCENARIO("values/int_uint64_uint16") { Run<int, unsigned long long, unsigned short>::go(c, c.choose(12)); }
