// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c13_cuts.hxx"
// every capacity assignment of all edges between up to two inner nodes (also into the source and out of the sink)
MC_SCENARIO("cut/small") {
   int n = c.range(2, 4); std::vector<CutEdge> e; bool special = c.flip();
   for(int a = 0; a < n; ++a) for(int b = 0; b < n; ++b) if(a != b && (special ? true : b != 0 && a != 1)) { if(special && n == 4 && (b == 0 || a == 1) && !c.thorough && !(a + b == 2)) continue; int w = c.choose(special && n == 4 ? 2 : n == 4 ? 4 : 3); if(w) e.push_back(CutEdge{a, b, (double)w}); }
   if(special && n < 4) { int w = c.choose(2); if(w) e.push_back(CutEdge{n - 1, n - 1, 2}); }
   int alg = c.choose(3); if(c.flip()) std::reverse(e.begin(), e.end()); cuts<int>(c, n, e, alg);
}
MC_SCENARIO("cut/three_inner") {
   std::vector<CutEdge> e; int alg = c.choose(3);
   for(int v = 2; v < 5; ++v) { int w = c.choose(c.tier(3, 4)); if(w) e.push_back(CutEdge{0, v, w * 1.5}); w = c.choose(c.tier(3, 4)); if(w) e.push_back(CutEdge{v, 1, w * 1.25}); }
   for(int a = 2; a < 5; ++a) for(int b = 2; b < 5; ++b) if(a != b && c.flip()) e.push_back(CutEdge{a, b, a + b == 6 ? 2.5 : 1.0});
   cuts<double>(c, 5, e, alg);
}
MC_SCENARIO("cut/edge_sequences") {   // sequences of edges: orders and parallel edges
   int n = c.range(3, 5), k = c.range(0, c.tier(4, 5)); std::vector<CutEdge> e;
   static const std::vector<std::pair<int, int> > s3{{0, 2}, {2, 1}, {0, 1}}, s4{{0, 2}, {0, 3}, {2, 3}, {3, 2}, {2, 1}, {3, 1}, {0, 1}}, s5{{0, 2}, {2, 3}, {3, 4}, {4, 1}, {3, 2}, {0, 4}, {2, 1}};
   for(int i = 0; i < k; ++i) { auto p = c.pick(n == 3 ? s3 : n == 4 ? s4 : s5); e.push_back(CutEdge{p.first, p.second, (double)c.range(n == 4 ? 1 : 0, 2)}); }
   int alg = c.choose(3); if(c.flip()) cuts<float>(c, n, e, alg); else cuts<size_t>(c, n, e, alg);
}
MC_SCENARIO("cut/longer_paths") {   // four inner nodes in two chains with cross edges
   std::vector<CutEdge> e; int alg = c.choose(3);
   static const int fixed[][2] = {{0, 2}, {2, 3}, {3, 1}, {0, 4}, {4, 5}, {5, 1}};
   for(auto& f : fixed) { int w = c.choose(3); if(w) e.push_back(CutEdge{f[0], f[1], w == 1 ? 1.0 : 3.0}); }
   static const int cross[][2] = {{2, 5}, {4, 3}, {3, 4}, {5, 2}, {3, 5}, {2, 4}};
   for(auto& f : cross) if(c.flip()) e.push_back(CutEdge{f[0], f[1], 2});
   cuts<double>(c, 6, e, alg);
}
