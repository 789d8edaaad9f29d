// FLAGS: -O0 -D_GLIBCXX_ASSERTIONS -DWITH_HDF5 -DWITH_BOOST HDF5
#include "c29_run.hxx"
#define main minsum_main
#include <src/interfaces/commandline/double/opengm_min_sum.cxx>
#undef main
int runMinSum(const Args& a) { Argv v("opengm_min_sum", a); return minsum_main(v.n(), v); }
