// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c11_exact.hxx"
typedef GmOf<double, opengm::Adder>::type GA; typedef GmOf<double, opengm::Multiplier>::type GX;
typedef GmOf<float, opengm::Adder, unsigned, unsigned char>::type GF; typedef GmOf<int, opengm::Adder>::type GI;
static void roots(mc::Ctx& c, const RefModel& r, std::vector<int>& out) {   // at most one root per component, any order
   std::vector<int> comp = refComponents(r); std::set<int> used;
   while(out.size() < 3 && c.flip()) { int v = c.choose((int)r.L.size()); if(!used.insert(comp[v]).second) c.prune(); out.push_back(v); }
}
MC_SCENARIO("dynamic/forests") {
   int n = c.range(1, 4); RefModel r = anyModel(c, n, n == 4 ? std::vector<int>{2, 3} : std::vector<int>{1, 2, 3}, c.range(0, c.tier(3, 4)), 0, 2, 2, c.thorough); if(!refAcyclic(r)) c.prune();
   std::vector<int> ro; roots(c, r, ro);
   int k = c.choose(4); if(!c.thorough && n == 4 && (k == 1 || k == 2 || ro.size() > 1)) c.prune(); if(k >= 2) makePositive(r);
   switch(k) { case 0: dynamic<GA, opengm::Minimizer>(c, r, ro); break; case 1: dynamic<GA, opengm::Maximizer>(c, r, ro); break; case 2: dynamic<GX, opengm::Minimizer>(c, r, ro); break; default: dynamic<GX, opengm::Maximizer>(c, r, ro); }
}
MC_SCENARIO("dynamic/values") {
   static const Scopes st[] = {{{0}, {0, 1}, {1}}, {{0, 1}, {1, 2}}, {{0, 2}, {1, 2}}, {{1}, {0, 2}}};
   int q = c.choose(4); RefModel r = fixedModel(q == 0 ? std::vector<int>{2, 3} : std::vector<int>{2, 2, 2}, st[q]);
   const double inf = std::numeric_limits<double>::infinity();
   for(size_t i = 0; i < r.f.size(); ++i) fillAll(c, r, (int)i, q == 0 ? std::vector<double>{-1, inf} : c.thorough ? std::vector<double>{-1, 0, 2, inf} : std::vector<double>{-1, 2, inf});
   dynamic<GA, opengm::Minimizer>(c, r, {});
}
MC_SCENARIO("dynamic/types") {
   int n = c.range(1, 3); RefModel r = anyModel(c, n, {1, 2, 3}, c.range(1, 3), 1, 2, 3); if(!refAcyclic(r)) c.prune();
   for(auto& f : r.f) for(double& x : f.t) x = std::floor(x);
   if(c.flip()) dynamic<GF, opengm::Minimizer>(c, r, {}); else dynamic<GI, opengm::Maximizer>(c, r, {});
   if(c.flip()) { bruteforce<GF, opengm::Maximizer>(c, r); bruteforce<GI, opengm::Minimizer>(c, r); } else { astar<GF, opengm::Minimizer>(c, r, 1, {}, {}, 2); astar<GI, opengm::Maximizer>(c, r, 1, {}, {}, 2); }
}
