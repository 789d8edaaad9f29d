// FLAGS: -O0 -D_GLIBCXX_ASSERTIONS -DWITH_HDF5 HDF5
#include "c29_run.hxx"
#define main opengm2uai_main
#include <src/converter/opengm2uai.cxx>
#undef main
int runOpengm2Uai(const Args& a) { Argv v("opengm2uai", a); return opengm2uai_main(v.n(), v); }
