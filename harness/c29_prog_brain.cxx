// FLAGS: -O0 -D_GLIBCXX_ASSERTIONS -DWITH_HDF5 HDF5
#include "c29_run.hxx"
#define main brain_main
#include <src/converter/brain.cxx>
#undef main
int runBrain(const Args& a) { Argv v("brain", a); return brain_main(v.n(), v); }
