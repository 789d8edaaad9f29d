// Enumerated families of small models shared by the solver harnesses.
#ifndef MODELS_HXX
#define MODELS_HXX
#include "gm.hxx"
#include <memory>

typedef std::vector<std::vector<int> > Scopes;
inline size_t ipow(size_t b, size_t e) { size_t r = 1; while(e--) r *= b; return r; }

// deterministic value tables: p = 0, 1 generic without ties, 2 ties (equal labels or not), 3 a single different entry, 4 two valued pattern
inline double patternValue(int p, int fi, const std::vector<int>& L, const std::vector<int>& v, size_t k, size_t n) {
   switch(p) {
   case 0: return (double)(((int)k * 29 + fi * 17 + 11) % 31) / 4 - 3.75;
   case 1: return (double)(((int)(n - 1 - k) * 23 + fi * 7 + 5) % 37) / 4 - 4.25;
   case 2: { bool same = true; size_t q = k; int first = -1; for(size_t d = 0; d < v.size(); ++d) { int l = (int)(q % L[v[d]]); q /= L[v[d]]; if(first < 0) first = l; else same = same && l == first; } return v.size() == 1 ? (double)(k % 2) : same ? 0 : 1; }
   case 3: return k + 1 == n ? -1 : 0;
   default: return (k + (size_t)fi) % 2 ? 2 : -1;
   }
}
inline void fillPattern(RefModel& r, int fi, int p) {
   RefFactor& f = r.f[fi]; size_t n = r.tableSize(f.v); f.t.resize(n);
   for(size_t k = 0; k < n; ++k) f.t[k] = patternValue(p, fi, r.L, f.v, k, n);
}
// every assignment of the given values to one factor's table
inline void fillAll(mc::Ctx& c, RefModel& r, int fi, const std::vector<double>& val) {
   RefFactor& f = r.f[fi]; size_t n = r.tableSize(f.v); f.t.resize(n);
   size_t done = 0;
   while(done < n) { size_t m = std::min<size_t>(n - done, 8); int q = c.choose((int)ipow(val.size(), m)); for(size_t k = 0; k < m; ++k) { f.t[done + k] = val[q % val.size()]; q /= (int)val.size(); } done += m; }
}
inline Scopes allScopes(int n, int minOrder, int maxOrder) {
   Scopes s;
   for(int o = minOrder; o <= maxOrder; ++o) for(int m = 0; m < (1 << n); ++m) if(__builtin_popcount(m) == o) { std::vector<int> v; for(int i = 0; i < n; ++i) if(m >> i & 1) v.push_back(i); s.push_back(v); }
   return s;
}
// a model with n variables, labels from lab, k factors (a non-decreasing sequence of scopes, so duplicates are included, optionally rotated) and one pattern per factor
inline RefModel anyModel(mc::Ctx& c, int n, const std::vector<int>& lab, int k, int minOrder, int maxOrder, int patterns, bool rotate = false) {
   RefModel r; for(int i = 0; i < n; ++i) r.L.push_back(c.pick(lab));
   Scopes s = allScopes(n, minOrder, std::min(n, maxOrder)); int last = 0;
   for(int i = 0; i < k; ++i) { last += c.choose((int)s.size() - last); RefFactor f; f.v = s[last]; r.f.push_back(f); }
   if(rotate && k > 1) { int q = c.choose(k); std::rotate(r.f.begin(), r.f.begin() + q, r.f.end()); }
   for(int i = 0; i < k; ++i) fillPattern(r, i, c.choose(patterns));
   return r;
}
inline RefModel fixedModel(const std::vector<int>& L, const Scopes& s) { RefModel r; r.L = L; for(size_t i = 0; i < s.size(); ++i) { RefFactor f; f.v = s[i]; r.f.push_back(f); } return r; }
inline void makePositive(RefModel& r, double add = 5) { for(auto& f : r.f) for(double& x : f.t) x += add; }

// factor graph predicates on the reference model
inline bool refAcyclic(const RefModel& r) {   // bipartite graph of variables and factors is a forest
   std::vector<int> p(r.L.size() + r.f.size()); for(size_t i = 0; i < p.size(); ++i) p[i] = (int)i;
   std::function<int(int)> find = [&](int x) { while(p[x] != x) x = p[x]; return x; };
   for(size_t i = 0; i < r.f.size(); ++i) for(int v : r.f[i].v) { int a = find((int)r.L.size() + (int)i), b = find(v); if(a == b) return false; p[a] = b; }
   return true;
}
inline std::vector<int> refComponents(const RefModel& r) { // representative per variable
   std::vector<int> p(r.L.size()); for(size_t i = 0; i < p.size(); ++i) p[i] = (int)i;
   bool ch = true; while(ch) { ch = false; for(auto& f : r.f) for(int v : f.v) for(int w : f.v) if(p[w] > p[v]) { p[w] = p[v]; ch = true; } }
   return p;
}
inline int refOrder(const RefModel& r) { size_t o = 0; for(auto& f : r.f) o = std::max(o, f.v.size()); return (int)o; }

template<class OP> struct IsMult { static const bool value = false; };
template<> struct IsMult<opengm::Multiplier> { static const bool value = true; };
template<class ACC> struct IsMax { static const bool value = false; };
template<> struct IsMax<opengm::Maximizer> { static const bool value = true; };
template<class T, class OP, class I = size_t, class L = size_t> struct GmOf {
   typedef opengm::GraphicalModel<T, OP, opengm::ExplicitFunction<T, I, L>, opengm::DiscreteSpace<I, L> > type;
};
#endif
