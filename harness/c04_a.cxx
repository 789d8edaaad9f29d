// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c04_summaries.hxx"
// every table of values over a small set, the tables most likely to be near a predicate's border
MC_SCENARIO("functions/double_size_t") { int fam = c.choose(13); family<double, size_t, size_t>(c, fam, c.tier(6, 8), c.tier(5, 6), [&](const auto& f, const Tab& t) { summaries<double>(c, f, t, fam == 5); }); }
MC_SCENARIO("tables/2x2_2x3") {
   Tab t(c.pick(std::vector<Co>{{2, 2}, {2, 3}, {3, 2}})); static const double W[4] = {0, 1, -1, 2}; int k = t.v.size() == 4 ? 4 : c.tier(3, 4); for(double& x : t.v) x = W[c.choose(k)]; MC_TRACE(c, t.str()); summaries<double>(c, Fn<double, size_t, size_t>::explicitOf(t), t, false);
}
// tables of a function of the difference of the labels, with one odd entry: straddles the (truncated) difference predicates
MC_SCENARIO("tables/bands") {
   Tab t(c.pick(std::vector<Co>{{2, 2}, {3, 3}, {2, 4}, {4, 2}, {4, 4}, {1, 4}, {4, 1}, {3, 5}, {5, 3}})); double g[5]; size_t mx = std::max(t.sh[0], t.sh[1]); static const double W[6] = {0, 1, 2, 4, -1, -4}; for(size_t d = 0; d < mx; ++d) g[d] = d == 0 ? (c.flip() ? 1 : 0) : d == 4 ? (c.flip() ? g[3] : c.flip() ? 2 * g[2] : 16 * g[1]) : d == 3 ? (c.flip() ? g[2] : c.flip() ? 3 * g[1] : 9 * g[1]) : W[c.choose(6)];
   t.fill([&](const Co& x) { return g[x[0] > x[1] ? x[0] - x[1] : x[1] - x[0]]; }); int odd = c.choose((int)t.v.size() + 1); if(odd < (int)t.v.size()) t.v[odd] += 1; MC_TRACE(c, t.str()); summaries<double>(c, Fn<double, size_t, size_t>::explicitOf(t), t, false);
}
// tables given by the pattern of equal labels, with one odd entry: straddles the Potts and generalised Potts predicates
MC_SCENARIO("tables/patterns") {
   Tab t(c.pick(std::vector<Co>{{2, 2}, {3, 3}, {2, 4}, {2, 2, 2}, {3, 3, 3}, {2, 3, 4}, {1, 3, 3}, {2, 2, 2, 2}, {3, 2, 2, 3}})); int how = c.choose(4); std::map<size_t, double> m;
   t.fill([&](const Co& x) { size_t p = pairNumber(x); return how == 0 ? (allEqual(x) ? 1.0 : 2.0) : how == 1 ? (double)p : how == 2 ? (double)(p % 3) : 1.0; }); int odd = c.choose((int)t.v.size() + 1); if(odd < (int)t.v.size()) t.v[odd] += c.flip() ? 1 : -1; MC_TRACE(c, t.str()); summaries<double>(c, Fn<double, size_t, size_t>::explicitOf(t), t, false);
}
