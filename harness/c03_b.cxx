// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c03_values.hxx"
MC_SCENARIO("values/float_uint32_uint8") { Run<float, unsigned, unsigned char>::go(c, c.choose(13)); }
