// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -UNDEBUG HDF5 -fsanitize=address -fno-sanitize-recover=all
#include "c09_hdf5.hxx"
MC_SCENARIO("whole/double") { whole<double>(c); }
MC_SCENARIO("whole/float") { whole<float>(c); }
MC_SCENARIO("whole/int") { whole<int>(c); }
MC_SCENARIO("whole/unsigned-long") { whole<unsigned long>(c); }
MC_SCENARIO("whole/char") { whole<char>(c); }
MC_SCENARIO("whole/signed-char") { whole<signed char>(c); }
