// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -fsanitize=address -fno-sanitize-recover=all
#include "c21_reduce.hxx"
typedef GmOf<double, opengm::Adder>::type GA; typedef GmOf<double, opengm::Multiplier>::type GX; typedef GmOf<float, opengm::Adder, unsigned, unsigned short>::type GF;
typedef opengm::Minimizer Min; typedef opengm::Maximizer Max;
MC_SCENARIO("fix/structures") { int n = c.range(0, c.tier(3, 3)); RefModel r = anyModel(c, n, {1, 2}, c.range(0, c.tier(2, 3)), 0, 3, 1); bool drop = c.flip(); if(c.thorough && c.flip()) { makePositive(r); Reduce<GX, Min>::run(c, r, drop, false, 1, false); } else Reduce<GA, Min>::run(c, r, drop, false, 1, false); }
MC_SCENARIO("fix/operations") { static const Scopes st[] = {{{0, 1}, {1, 2}, {}, {2}}, {{0, 1, 2}, {0}, {0, 2}}, {{1}}, {{0, 1, 2}, {}, {0, 1}, {0, 1}}}; int q = c.choose(4); RefModel r = fixedModel({2, 3, 2}, st[q]); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, i % 2); Reduce<GA, Min>::run(c, r, c.flip(), false, 1, true); }
MC_SCENARIO("fix/again") { static const Scopes st[] = {{{0, 1}, {1, 2}, {}, {2}}, {{0, 1, 2}, {0}, {0, 2}}, {{0, 1}, {1, 2}, {2, 3}, {0, 3}}}; int q = c.choose(3); RefModel r = fixedModel(q == 2 ? std::vector<int>{2, 2, 2, 2} : std::vector<int>{2, 3, 2}, st[q]); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, i % 2); bool drop = c.flip(); Reduce<GF, Min>::run(c, r, drop, false, 2, false); }
MC_SCENARIO("fix/product") { RefModel r = fixedModel({2, 3, 2}, {{0, 1}, {1, 2}, {}, {0}, {0, 1, 2}}); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, c.choose(2)); makePositive(r); Reduce<GX, Min>::run(c, r, c.flip(), false, 1, false); }
MC_SCENARIO("fix/parts") { RefModel r; int n = c.tier(4, 5); r.L.assign(n, 2); r.L[1] = 3; int k = 0; for(auto& v : allScopes(n, 2, 2)) if(c.flip()) { RefFactor f; f.v = v; r.f.push_back(f); fillPattern(r, k++, 0); } RefFactor f; f.v = {n - 1}; r.f.push_back(f); fillPattern(r, k, 1); int which = c.choose(n); Reduce<GA, Min>::run(c, r, c.flip(), false, 1, false, 1 << which | 1 << (which + 1) % n); }
