#include "mc.hxx"
int main(int argc, char** argv) { return mc::run(argc, argv); }
