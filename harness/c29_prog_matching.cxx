// FLAGS: -O0 -D_GLIBCXX_ASSERTIONS -DWITH_HDF5 HDF5
#include "c29_run.hxx"
#include <cmath>
#define main matching_main
#include <src/converter/matching2opengm.cxx>
#undef main
int runMatching(const Args& a) { Argv v("matching", a); return matching_main(v.n(), v); }
