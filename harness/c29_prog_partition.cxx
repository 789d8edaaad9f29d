// FLAGS: -O0 -D_GLIBCXX_ASSERTIONS -DWITH_HDF5 HDF5
#include "c29_run.hxx"
#define main partition_main
#include <src/converter/partition2potts.cxx>
#undef main
int runPartition(const Args& a) { Argv v("partition", a); return partition_main(v.n(), v); }
