// Deterministic random source: the harness decides every draw of the C library generator that OpenGM uses.
#ifndef RAND_HXX
#define RAND_HXX
#include "mc.hxx"
struct Draws { std::vector<int> v; size_t used; unsigned long long tail; Draws() : used(0), tail(1) {} };
inline Draws& draws() { static Draws d; return d; }
extern "C" int rand() noexcept { Draws& d = draws(); if(d.used < d.v.size()) return d.v[d.used++]; ++d.used; d.tail = d.tail * 6364136223846793005ULL + 1442695040888963407ULL; return (int)(d.tail >> 40) & 0x7fff; }
extern "C" void srand(unsigned) noexcept {}
// the next draws are k numbers, each from the given values (all combinations are explored); afterwards a fixed sequence follows
inline void setDraws(mc::Ctx& c, int k, const std::vector<int>& values) { Draws& d = draws(); d.v.clear(); d.used = 0; d.tail = 1; for(int i = 0; i < k; ++i) d.v.push_back(c.pick(values)); }
#endif
