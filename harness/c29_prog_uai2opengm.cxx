// FLAGS: -O0 -D_GLIBCXX_ASSERTIONS -DWITH_HDF5 HDF5
#include "c29_run.hxx"
#define main uai2opengm_main
#include <src/converter/uai2opengm.cxx>
#undef main
int runUai2Opengm(const Args& a) { Argv v("uai2opengm", a); return uai2opengm_main(v.n(), v); }
