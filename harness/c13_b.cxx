// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c13_cuts.hxx"
typedef GmOf<double, opengm::Adder>::type GD; typedef GmOf<int, opengm::Adder, unsigned, unsigned char>::type GI;
template<class GM, class V> static void both(mc::Ctx& c, RefModel r, int alg, int how, double scale, bool max) {
   if(max) { for(auto& f : r.f) for(double& x : f.t) x = -x; algorithms<GM, opengm::Maximizer, V>(c, r, alg, how, scale); }
   else algorithms<GM, opengm::Minimizer, V>(c, r, alg, how, scale);
}
// one pairwise factor with every submodular table over five values
MC_SCENARIO("model/one_pair") {
   RefModel r = fixedModel({2, 2}, {{0, 1}, {0}}); fillAll(c, r, 0, {-3, -1, 0, 1, 4}); if(!submodular(r.f[0].t, 1)) c.prune(); fillAll(c, r, 1, {-2, 0, 3});
   bool max = c.flip(); int alg = c.choose(3), how = c.choose(3); if(c.flip()) std::reverse(r.f.begin(), r.f.end()); both<GI, int>(c, r, alg, how, 1, max);
}
// all scopes of order zero to two over up to four variables
MC_SCENARIO("model/structures") {
   int n = c.range(1, 4); RefModel r; r.L.assign(n, 2); Scopes s = allScopes(n, 0, 2); int k = c.range(0, n < 4 ? c.tier(3, 4) : 3), last = 0;
   for(int i = 0; i < k; ++i) { last += c.choose((int)s.size() - last); RefFactor f; f.v = s[last]; r.f.push_back(f); }
   for(int i = 0; i < k; ++i) { auto& t = r.f[i].t; switch(r.f[i].v.size()) { case 0: t = {7}; break; case 1: t = c.flip() ? std::vector<double>{0, 1.5} : std::vector<double>{2, -1}; break; default: t = c.pick(std::vector<std::vector<double> >{{0, 1, 1, 0}, {1, 3, -1, 0.5}, {-2, 1, 4, 1.5}, {3, 4, 0, 1}}); } }
   if(k > 1) { int q = c.choose(k); std::rotate(r.f.begin(), r.f.begin() + q, r.f.end()); }
   bool max = c.flip(); int alg = c.choose(3); if(alg == 2) both<GD, float>(c, r, alg, c.choose(2), 4, max); else both<GD, double>(c, r, alg, 0, 1, max);
}
// a cycle with all signs of unaries and every strength
MC_SCENARIO("model/cycle") {
   RefModel r = fixedModel({2, 2, 2, 2}, {{0}, {1}, {2}, {3}, {0, 1}, {1, 2}, {2, 3}, {0, 3}, {0, 2}});
   static const std::vector<double> u{-3, -1, 1, 2}; for(int i = 0; i < 4; ++i) r.f[i].t = {0, c.pick(u)};
   for(int i = 4; i < 9; ++i) { double w = c.choose(i < 7 || c.thorough ? 3 : 2); r.f[i].t = {0, w, i == 6 ? 2 * w : w, 0}; }
   int alg = c.choose(3); both<GI, int>(c, r, alg, 0, 2, false);
}
// duplicates of the same scope in both orders of addition, tables different
MC_SCENARIO("model/duplicates") {
   RefModel r = fixedModel({2, 2, 2}, {{0, 1}, {0, 1}, {1, 2}, {1, 2}});
   static const std::vector<std::vector<double> > t{{0, 2, 1, 0}, {5, 1, 5, 0}, {-1, 0, 4, -2}, {0, 0, 0, 0}, {2, 7, -3, 2}};
   for(auto& f : r.f) f.t = c.pick(t);
   bool max = c.flip(); int alg = c.choose(3); both<GD, double>(c, r, alg, c.choose(3), 1, max);
}
