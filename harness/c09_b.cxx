// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -UNDEBUG HDF5 -fsanitize=address -fno-sanitize-recover=all
#include "c09_hdf5.hxx"
MC_SCENARIO("slabs/double") { slabs<double>(c); }
MC_SCENARIO("slabs/int") { slabs<int>(c); }
MC_SCENARIO("slabs/short") { slabs<unsigned short>(c); }
MC_SCENARIO("slabs/long") { slabs<long long>(c); }
MC_SCENARIO("whole/short") { whole<unsigned short>(c); }
MC_SCENARIO("whole/unsigned") { whole<unsigned>(c); }
MC_SCENARIO("whole/bytes") { whole<unsigned char>(c); }
