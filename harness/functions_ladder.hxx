// Built-in functions over a ladder of label counts and orders.
#ifndef FUNCTIONS_LADDER_HXX
#define FUNCTIONS_LADDER_HXX
#include "functions.hxx"
inline Co ladderShape(Ctx& c, size_t mostLabels, int mostVars, size_t mostSize) {
   static const std::vector<size_t> N = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 512, 1000}; Co sh; const int kind = c.choose(10);
   if(kind < 7) { size_t n = c.pick(N); if(n > mostLabels) c.prune(); switch(kind) { case 0: sh = {n}; break; case 1: sh = {n, 2}; break; case 2: sh = {3, n}; break; case 3: sh = {n, n}; break; case 4: sh = {2, n, 2}; break; case 5: sh = {n, 3, n + 1}; break; default: sh = {n, n + 1}; } }
   else { const int d = c.range(1, mostVars); for(int i = 0; i < d; ++i) sh.push_back(kind == 7 ? 2 : kind == 8 ? 3 : 1 + (i * 2 + d) % 4); }
   for(size_t x : sh) if(x > mostLabels) c.prune(); if(Tab::count(sh) > mostSize) c.prune(); return sh;
}
template<class T, class I, class L, class B> void ladderFunction(Ctx& c, int fam, Tab t, B b) {
   typedef Fn<T, I, L> N; const size_t n = t.v.size(), d = t.sh.size(); std::vector<L> sh(t.sh.begin(), t.sh.end()); const double e = 2, o = -3; MC_TRACE(c, "family " << fam << " shape " << [&] { std::ostringstream s; for(size_t x : t.sh) s << x << " "; return s.str(); }());
   auto diff = [&](bool sq, double tr) { t.fill([&](const Co& x) { double y = std::fabs((double)x[0] - (double)x[1]); if(sq) y *= y; return 2 * std::min(y, tr); }); }; if(fam >= 5 && d != 2) c.prune(); const L A = sh[0], Z = d > 1 ? sh[1] : 1;
   switch(fam) {
      case 0: for(size_t k = 0; k < n; ++k) t.v[k] = (double)((k * 37 + 5) % 997) / 4 - 100; b(N::explicitOf(t), t); break;
      case 1: { const int every = c.pick(std::vector<int>{1, 2, 7}), down = c.flip(); for(double& x : t.v) x = 1; typename N::S f(sh.begin(), sh.end(), (T)1); for(size_t q = 0; q < n; q += every) { const size_t k = down ? n - 1 - q : q; t.v[k] = (double)(k % 101) + 2; Co x = t.co(k); f.insert(x.begin(), (T)t.v[k]); } b(f, t); break; }
      case 2: for(double& x : t.v) x = -7; b(typename N::C(sh.begin(), sh.end(), (T)-7), t); break;
      case 3: t.fill([&](const Co& x) { return allEqual(x) ? e : o; }); b(typename N::PN(sh.begin(), sh.end(), (T)e, (T)o), t); break;
      case 4: { if(d > 6) c.prune(); const std::vector<size_t>& P = partitionNumbers(d); std::vector<T> v(P.size()); for(size_t i = 0; i < v.size(); ++i) v[i] = (T)((double)((i * 5 + 2) % 199) - 3); t.fill([&](const Co& x) { return (double)v[std::lower_bound(P.begin(), P.end(), pairNumber(x)) - P.begin()]; }); b(typename N::PG(sh.begin(), sh.end(), v.begin()), t); break; }
      case 5: t.fill([&](const Co& x) { return x[0] == x[1] ? e : o; }); b(typename N::P(A, Z, (T)e, (T)o), t); break;
      case 6: diff(false, 1e9); b(typename N::AD(A, Z, 2), t); break;
      case 7: diff(true, 1e9); b(typename N::SD(A, Z, 2), t); break;
      case 8: { const double tr = c.pick(std::vector<double>{0, 1, 5, 30, 120, 300}); diff(false, tr); b(typename N::TAD(A, Z, (T)tr, 2), t); break; }
      case 9: { const double tr = c.pick(std::vector<double>{0, 1, 5, 30, 120, 16129, 70000}); diff(true, tr); b(typename N::TSD(A, Z, (T)tr, 2), t); break; }
   }
}
#endif
