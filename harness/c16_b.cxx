// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c16_moves.hxx"
typedef GmOf<double, opengm::Adder>::type GD;
// few pairs of labels improve the labeling: every variable starts at one label, has one better label, and the other labels are worse
static RefModel ridges(mc::Ctx& c, int n, int L, std::vector<int>& start, double w) {
   RefModel r = fixedModel(std::vector<int>(n, L), {}); start.clear();
   for(int i = 0; i < n; ++i) { int a = c.choose(L), b = c.choose(L); start.push_back(a); RefFactor f; f.v = {i}; f.t.assign(L, 9.0); f.t[a] = 1; f.t[b] = 0; r.f.push_back(f); }
   for(int i = 0; i + 1 < n; ++i) { RefFactor f; f.v = {i, i + 1}; f.t = labelTerm(0, L); for(double& x : f.t) x *= w; r.f.push_back(f); }
   if(c.flip()) for(int l = 0; l < L; ++l) if(std::find(start.begin(), start.begin() + n, l) == start.begin() + n) { RefFactor f; f.v = {(int)r.L.size()}; r.L.push_back(L); start.push_back(l); f.t.assign(L, 9.0); f.t[l] = 0; r.f.push_back(f); }   // every label is in use
   return r;
}
MC_SCENARIO("swap/models") {
   int n = c.range(1, 3), L = c.range(1, 3), k = c.range(0, c.tier(3, 4)); bool max = c.flip(); RefModel r = labelModel(c, n, L, k, max, true, k < 3 || c.thorough ? 5 : 3);
   std::vector<int> start = anyLabels(c, r); bool set = c.flip(); if(!set) for(int x : start) if(x) c.prune();
   if(max) swapping<GD, opengm::Maximizer, opengm::PUSH_RELABEL>(c, r, start, set, k < 3); else swapping<GD, opengm::Minimizer, opengm::KOLMOGOROV>(c, r, start, set, k < 3);
}
MC_SCENARIO("swap/tables") {
   RefModel r = fixedModel({3, 3}, {{0, 1}, {0}, {1}}); fillAll(c, r, 0, {0, 1, 2}); if(!swapTerm(r.f[0].t, 3, 1)) c.prune(); int q = c.choose(3); r.f[1].t = q == 0 ? std::vector<double>{0, 0, 0} : q == 1 ? std::vector<double>{0, 1.5, -1} : std::vector<double>{2, 0, 1}; r.f[2].t = c.flip() ? std::vector<double>{1, 0, 0.5} : std::vector<double>{0, -2, 1};
   std::vector<int> start = anyLabels(c, r); swapping<GD, opengm::Minimizer, opengm::EDMONDS_KARP>(c, r, start, true, false);
}
MC_SCENARIO("swap/cycles") {
   static const Scopes st[] = {{{0, 1}, {1, 2}, {2, 3}, {0, 3}}, {{0, 1}, {0, 2}, {1, 2}, {2, 3}}, {{0, 1}, {0, 2}, {0, 3}, {1, 3}, {0, 1}}};
   const int L = c.range(3, 4); RefModel r = fixedModel(std::vector<int>(4, L), st[c.choose(3)]); for(size_t i = 0; i < r.f.size(); ++i) { r.f[i].t = labelTerm(c.choose(c.tier(2, 3)), L); if(!swapTerm(r.f[i].t, L, 1)) c.prune(); }
   for(int i = 0; i < 4; ++i) { RefFactor f; f.v = {i}; r.f.push_back(f); fillPattern(r, (int)r.f.size() - 1, c.choose(2)); if(c.flip() && i) break; }
   std::vector<int> start = c.thorough ? anyLabels(c, r) : std::vector<int>{c.choose(L), 0, c.choose(L), 1}; swapping<GD, opengm::Minimizer, opengm::KOLMOGOROV>(c, r, start, true, false);
}
MC_SCENARIO("swap/one pair") { std::vector<int> start; int L = c.range(3, 6), n = c.range(1, L < c.tier(5, 6) ? 2 : 1); RefModel r = ridges(c, n, L, start, 0.25); swapping<GD, opengm::Minimizer, opengm::KOLMOGOROV>(c, r, start, true, false); }
