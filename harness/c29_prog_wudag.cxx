// FLAGS: -O0 -D_GLIBCXX_ASSERTIONS -DWITH_HDF5 HDF5
#include "c29_run.hxx"
#define main wudag_main
#include <src/converter/opengm2wudag.cxx>
#undef main
int runWudag(const Args& a) { Argv v("wudag", a); return wudag_main(v.n(), v); }
