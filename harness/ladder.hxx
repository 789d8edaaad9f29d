// Larger models over a ladder of sizes, with reference answers that do not need all labelings: variable elimination on plain tables.
#ifndef LADDER_HXX
#define LADDER_HXX
#include "models.hxx"
#include <map>
// sizes around the capacities of small buffers, machine words and bytes
inline int ladder(mc::Ctx& c, int most, int least = 1) {
   static const std::vector<int> few = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025};
   std::vector<int> s; if(c.thorough) { for(int i = least; i <= most && i <= 300; ++i) s.push_back(i); for(int i : few) if(i > 300 && i <= most && i >= least) s.push_back(i); } else for(int i : few) if(i <= most && i >= least) s.push_back(i);
   return c.pick(s);
}
enum Shape { CHAIN, RING, STAR, BINARY_TREE, CATERPILLAR, GRID2, GRID3, BACKWARD, FORESTS, SHAPES };
inline Scopes shapeEdges(int shape, int n) {
   Scopes s; auto e = [&](int a, int b) { s.push_back(a < b ? std::vector<int>{a, b} : std::vector<int>{b, a}); };
   switch(shape) {
   case CHAIN: for(int i = 0; i + 1 < n; ++i) e(i, i + 1); break;
   case RING: for(int i = 0; i + 1 < n; ++i) e(i, i + 1); if(n > 2) e(0, n - 1); break;
   case STAR: for(int i = 0; i < n; ++i) if(i != n / 2) e(i, n / 2); break;
   case BINARY_TREE: for(int i = 1; i < n; ++i) e(i, (i - 1) / 2); break;
   case CATERPILLAR: for(int i = 1; i < n; ++i) if(i % 2) e(i, i - 1); else e(i, i - 2); break;
   case GRID2: case GRID3: { const int w = shape == GRID2 ? 2 : 3; for(int i = 0; i < n; ++i) { if(i % w + 1 < w && i + 1 < n) e(i, i + 1); if(i + w < n) e(i, i + w); } break; }
   case BACKWARD: for(int i = n - 1; i > 0; --i) e(i, i - 1); break;            // a chain whose factors are added from its end
   default: for(int i = 1; i < n; ++i) if(i % 5) e(i, i - 1 - (i % 5 == 3 ? 1 : 0)); break;    // several trees
   }
   return s;
}
inline bool shapeIsTree(int s) { return s != RING && s != GRID2 && s != GRID3; }
// labels from a repeating list; one table pattern with values of a few quarters
inline RefModel ladderModel(int shape, int n, const std::vector<int>& labels, int pattern, bool unaries = true, bool between = false) {
   RefModel r; for(int i = 0; i < n; ++i) r.L.push_back(labels[i % labels.size()]); Scopes s; if(unaries && !between) for(int i = 0; i < n; ++i) s.push_back({i}); for(auto& e : shapeEdges(shape, n)) s.push_back(e); if(unaries && between) for(int i = n - 1; i >= 0; --i) s.push_back({i});
   r = fixedModel(r.L, s); for(size_t i = 0; i < r.f.size(); ++i) { if(pattern < 2) { RefFactor& f = r.f[i]; const size_t m = r.tableSize(f.v); f.t.resize(m); unsigned x = (unsigned)i * 2654435761u + 12345u * (pattern + 1); for(size_t k = 0; k < m; ++k) { x = x * 1664525u + 1013904223u; f.t[k] = (double)((x >> 16) % 41) / 4 - 5; } } else fillPattern(r, (int)i, pattern); } return r;
}
// the model in which variable i may only take the given labels
inline RefModel restrictTo(const RefModel& r, const std::vector<std::vector<int> >& opts) { RefModel q; for(auto& o : opts) q.L.push_back((int)o.size()); for(auto& f : r.f) { RefFactor g; g.v = f.v; g.t.resize(q.tableSize(f.v)); for(size_t k = 0; k < g.t.size(); ++k) { size_t x = k, at = 0, s = 1; for(int v : f.v) { at += s * opts[v][x % q.L[v]]; x /= q.L[v]; s *= r.L[v]; } g.t[k] = f.t[at]; } q.f.push_back(g); } return q; }
inline std::vector<std::vector<int> > allOptions(const RefModel& r) { std::vector<std::vector<int> > o(r.L.size()); for(size_t i = 0; i < o.size(); ++i) for(int l = 0; l < r.L[i]; ++l) o[i].push_back(l); return o; }
inline RefModel clampTo(const RefModel& r, int v, int l) { auto o = allOptions(r); o[v] = {l}; return restrictTo(r, o); }
inline void nearOne(RefModel& r) { for(auto& f : r.f) for(double& x : f.t) x = 1 + x / 64; }
// labelings to look at: constant ones, alternating ones, and one per variable that differs there only
inline std::vector<std::vector<int> > someLabelings(const RefModel& r) { std::vector<std::vector<int> > x; const size_t n = r.L.size(); for(int k = 0; k < 5; ++k) { std::vector<int> y(n); for(size_t i = 0; i < n; ++i) y[i] = (int)(k < 3 ? std::min(k, r.L[i] - 1) : k == 3 ? i % r.L[i] : r.L[i] - 1); x.push_back(y); } for(size_t i = 0; i < n; i += 1 + n / 40) { std::vector<int> y(n, 0); y[i] = r.L[i] - 1; x.push_back(y); } return x; }
#endif
