// FLAGS: -O0 -D_GLIBCXX_ASSERTIONS -DWITH_HDF5 HDF5
#include "c29_run.hxx"
#define main matchingn2n_main
#include <src/converter/matching2opengm-N2N.cxx>
#undef main
int runMatchingN2N(const Args& a) { Argv v("matchingn2n", a); return matchingn2n_main(v.n(), v); }
