// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -fsanitize=address -fno-sanitize-recover=all
#include "c21_reduce.hxx"
typedef GmOf<double, opengm::Adder>::type GA; typedef GmOf<double, opengm::Multiplier>::type GX; typedef GmOf<float, opengm::Adder, unsigned, unsigned short>::type GF;
typedef opengm::Minimizer Min; typedef opengm::Maximizer Max;
template<class GM> static void tent(mc::Ctx& c, const RefModel& r, int rounds, int mask = -1) { if(c.flip()) Reduce<GM, Max>::run(c, r, false, true, rounds, false, mask); else Reduce<GM, Min>::run(c, r, false, true, rounds, false, mask); }
MC_SCENARIO("tentacles/structures") { int n = c.range(1, 3); RefModel r = anyModel(c, n, {1, 2}, c.range(0, c.tier(3, 4)), 0, 3, 1); for(size_t i = 1; i < r.f.size(); i += 2) fillPattern(r, (int)i, 1); tent<GA>(c, r, 1); }
MC_SCENARIO("tentacles/trees") {   // every attachment of five variables, and one more edge
   int n = c.tier(4, 5); RefModel r; r.L.assign(n, 2); r.L[0] = 3; for(int v = 1; v < n; ++v) { RefFactor f; f.v = {c.choose(v), v}; r.f.push_back(f); } int e = c.choose(1 + n * (n - 1) / 2); if(e) { RefFactor f; f.v = allScopes(n, 2, 2)[e - 1]; r.f.push_back(f); } RefFactor u; u.v = {c.choose(n)}; r.f.push_back(u); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, (int)i % 2); tent<GA>(c, r, 1);
}
MC_SCENARIO("tentacles/cycles") {   // a cycle with attachments of order two and three
   static const Scopes st[] = {{{0, 1}, {1, 2}, {0, 2}, {2, 3}, {3, 4}, {4}}, {{0, 1}, {1, 2}, {0, 2}, {2, 3, 4}, {3}}, {{0, 1}, {1, 2}, {0, 2}, {2, 3}, {0, 4}, {1}}, {{0, 1, 2}, {1, 2}, {2, 3}, {3, 4}, {0}}, {{2, 3}, {3, 4}, {2, 4}, {0, 1, 2}, {1}, {2}}, {{0, 4}, {1, 3}, {0, 1, 2}, {2, 3}, {4}}, {{0, 1, 2}, {2, 3, 4}, {0}}};
   int q = c.choose(7); RefModel r = fixedModel({2, 2, 3, 2, 2}, st[q]); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, c.choose(i < 2 ? 1 : i < 5 ? 2 : 1) ); int perm = c.choose(3); if(perm) for(auto& f : r.f) { for(int& v : f.v) v = perm == 1 ? 4 - v : v; std::reverse(f.v.begin(), f.v.end()); if(perm == 2) std::sort(f.v.begin(), f.v.end()); else std::sort(f.v.begin(), f.v.end()); } if(perm == 2) std::reverse(r.f.begin(), r.f.end()); tent<GA>(c, r, 1);
}
MC_SCENARIO("tentacles/values") { static const Scopes st[] = {{{0, 1}, {1, 2}}, {{0, 1}, {1, 2}, {0, 2}, {2, 3}}, {{0, 1, 2}, {1}}}; int q = c.choose(3); RefModel r = fixedModel(q == 1 ? std::vector<int>{2, 2, 2, 2} : std::vector<int>{2, 2, 2}, st[q]); for(size_t i = 0; i < r.f.size(); ++i) if(q == 1 && i != 1 && i != 3) fillPattern(r, (int)i, 0); else fillAll(c, r, (int)i, q == 2 ? std::vector<double>{0, 1} : std::vector<double>{0, 1, -1}); tent<GA>(c, r, 1, c.thorough ? -1 : 4); }
MC_SCENARIO("tentacles/product") { static const Scopes st[] = {{{0, 1}, {1, 2}, {0, 2}, {2, 3}, {3}}, {{0, 1, 2}, {2, 3}, {0}}}; RefModel r = fixedModel({2, 2, 3, 2}, st[c.choose(2)]); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, c.choose(2)); makePositive(r); tent<GX>(c, r, 1); }
MC_SCENARIO("tentacles/again") { static const Scopes st[] = {{{0, 1}, {1, 2}, {0, 2}, {2, 3}}, {{0, 1, 2}, {2, 3}, {0}}, {{0, 1}, {1, 2}, {2, 3}}}; RefModel r = fixedModel({2, 2, 2, 2}, st[c.choose(3)]); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, (int)i % 2); tent<GA>(c, r, 2, c.thorough ? -1 : 7); }
