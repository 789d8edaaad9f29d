// FLAGS: -O0 -D_GLIBCXX_ASSERTIONS -DWITH_HDF5 HDF5
// C29 (2): the weighted graph writer and the converters from partitions, volumes and matching problems.
#include "c29.hxx"
// pairwise models in which a factor only tells equal from different labels
static RefModel partition(mc::Ctx& c, Few& gm, int n, int k, int l, bool constants) {
   RefModel r; r.L.assign(n, l); gm = emptyModel<Few>(r); Scopes s = allScopes(n, constants ? 0 : 2, 2); s.erase(std::remove_if(s.begin(), s.end(), [](const std::vector<int>& v) { return v.size() == 1; }), s.end());
   for(int i = 0; i < k; ++i) { const std::vector<int>& v = c.pick(s); if(v.empty()) { addKind(gm, r, v, 0, i % 5); continue; } if(c.flip()) addKind(gm, r, v, 1, c.choose(2)); else { RefFactor f; f.v = v; f.t.assign(r.tableSize(v), -0.75 - i); const double eq = 1.0 / 3 * (i + c.choose(2)); for(int x = 0; x < l; ++x) f.t[x + l * x] = eq; r.f.push_back(f); addExplicit(gm, r, r.f.size() - 1); } } return r;
}
static void graph(mc::Ctx& c, int n, int k, int l, bool constants) {
   Few gm; RefModel r = partition(c, gm, n, k, l, constants); c.state(r.hash()); c.step(); MC_TRACE(c, r.str()); Files t; const std::string h = t("m.h5"), g = t("m.graph"); oh::save(gm, h, "gm"); Ran w = program(runWudag, {h, g}); c.eq(w.rc, 0, "status");
   std::istringstream i(contents(g)); size_t vars = 0, edges = 0; double sum = 0; c.check((bool)(i >> vars >> edges >> sum), "preamble of the graph"); c.eq(vars, r.L.size(), "nodes of the graph"); struct Edge { int a, b; double w; }; std::vector<Edge> e; for(size_t j = 0; j < edges; ++j) { Edge x; c.check((bool)(i >> x.a >> x.b >> x.w), "the graph has as many edges as it says"); c.check(x.a >= 0 && x.b >= 0 && x.a < (int)vars && x.b < (int)vars && x.a != x.b, "nodes of an edge"); e.push_back(x); } std::string rest; c.check(!(i >> rest), "nothing follows the edges");
   if(l >= 2) { std::vector<int> lab(n, 0); do { double v = sum; for(auto& x : e) if(lab[x.a] != lab[x.b]) v += x.w; c.near(v, r.eval(lab), 1e-9, "value of a labeling of the graph"); } while(r.next(lab)); } c.outcome(r.hash());
}
MC_SCENARIO("graph/two-nodes") { graph(c, 2, c.range(0, 2), c.range(2, 3), false); }
MC_SCENARIO("graph/three-nodes") { graph(c, 3, c.range(1, c.tier(2, 3)), c.range(2, 3), false); }
MC_SCENARIO("graph/four-nodes") { graph(c, 4, c.range(1, c.tier(1, 2)), 2, false); }
MC_SCENARIO("graph/constants") { graph(c, c.range(2, 3), c.range(1, 3), 2, true); }
MC_SCENARIO("graph/refused") { RefModel r; r.L = {2, 2, 2}; Few gm = emptyModel<Few>(r); addKind(gm, r, {0, 1}, 1, 0); if(c.flip()) addKind(gm, r, {1}, 0, 0); else addKind(gm, r, {0, 1, 2}, 0, 0); c.state(r.hash()); c.step(); Files t; const std::string h = t("m.h5"), g = t("m.graph"); oh::save(gm, h, "gm"); c.check(program(runWudag, {h, g}).rc != 0, "a model that is not a graph is refused"); c.outcome(1); }
// a partition problem as a labeling problem: the first label is fixed, and the value is the same
static void potts(mc::Ctx& c, int n, int k, int l) {
   Few gm; RefModel r = partition(c, gm, n, k, 2, false); const int m = c.range(1, 4); c.state(mc::mix(r.hash(), m)); c.step(); MC_TRACE(c, r.str() << " labels " << m); Files t; const std::string h = t("m.h5"), g = t("p.h5"); oh::save(gm, h, "gm"); Ran w = program(runPartition, {h, g, std::to_string(m)}); c.eq(w.rc, 0, "status"); (void)l;
   Few q; oh::load(q, g, "gm"); c.eq((size_t)q.numberOfVariables(), (size_t)n, "variables"); RefModel z; z.L.assign(n, m); for(int i = 0; i < n; ++i) c.eq((int)q.numberOfLabels(i), m, "labels"); std::vector<int> lab(n, 0); do { double v = 0; for(auto& f : r.f) v += f.t[lab[f.v[0]] == lab[f.v[1]] ? 0 : 2]; std::vector<size_t> x(lab.begin(), lab.end()); const double got = q.evaluate(x.begin()); if(lab[0] == 0) c.near(got, v, 1e-9, "value of a labeling"); else c.check(got > 1e8, "the first label is fixed"); } while(z.next(lab)); c.outcome(z.hash());
}
MC_SCENARIO("partition/two-nodes") { potts(c, 2, c.range(0, 2), 2); }
MC_SCENARIO("partition/three-nodes") { potts(c, 3, c.range(1, 2), 2); }
MC_SCENARIO("partition/four-nodes") { potts(c, 4, c.range(1, c.tier(1, 2)), 2); }
// a volume of grey values: distances to five centers and a Potts term between neighbours
static void volume(mc::Ctx& c, int a, int b, int d, const std::vector<int>& grey, double w) {
   const int n = a * b * d; std::vector<int> x(n); for(int i = 0; i < n; ++i) x[i] = i < 3 ? c.pick(grey) : (i * 91 + grey[0]) % 256; c.state(mc::mix(mc::mix(a, b), mc::mix(d, x[0] * 65536 + (n > 1 ? x[1] : 0)))); c.step(); MC_TRACE(c, a << "x" << b << "x" << d << " first " << x[0]); Files t; const std::string v = t("m.raw"), h = t("m.h5"); { std::ofstream o(v.c_str(), std::ios::binary); for(int y : x) o.put((char)y); } std::ostringstream ws; ws << w;
   Ran q = program(runBrain, {v, h, std::to_string(a), std::to_string(b), std::to_string(d), ws.str()}); c.eq(q.rc, 0, "status"); Few gm; oh::load(gm, h, "gm"); c.eq((size_t)gm.numberOfVariables(), (size_t)n, "variables"); const double center[] = {4, 45, 105, 150, 204}; size_t pairs = 0;
   auto at = [&](int i, int j, int k) { return i + a * (j + b * k); }; std::vector<std::pair<int, int> > nb; for(int k = 0; k < d; ++k) for(int j = 0; j < b; ++j) for(int i = 0; i < a; ++i) { if(i + 1 < a) nb.push_back({at(i, j, k), at(i + 1, j, k)}); if(j + 1 < b) nb.push_back({at(i, j, k), at(i, j + 1, k)}); if(k + 1 < d) nb.push_back({at(i, j, k), at(i, j, k + 1)}); } pairs = nb.size(); c.eq((size_t)gm.numberOfFactors(), n + pairs, "factors");
   std::vector<std::vector<size_t> > labs; for(size_t l = 0; l < 5; ++l) labs.push_back(std::vector<size_t>(n, l)); for(int i = 0; i < n; ++i) for(size_t l = 1; l < 5; ++l) { std::vector<size_t> y(n, 0); y[i] = l; labs.push_back(y); for(int j = i + 1; j < n; ++j) { y[j] = l; labs.push_back(y); y[j] = 0; } } std::vector<size_t> y(n); for(int i = 0; i < n; ++i) { c.eq((int)gm.numberOfLabels(i), 5, "labels"); y[i] = i % 5; } labs.push_back(y);
   for(auto& l : labs) { double e = 0; for(int i = 0; i < n; ++i) e += std::fabs(x[i] - center[l[i]]); for(auto& p : nb) if(l[p.first] != l[p.second]) e += w; c.near((double)gm.evaluate(l.begin()), e, 1e-9, "value of a labeling"); } c.outcome(n);
}
MC_SCENARIO("volume/one-voxel") { std::vector<int> all; for(int i = 0; i < 256; ++i) all.push_back(i); volume(c, 1, 1, 1, all, 2); }
MC_SCENARIO("volume/lines") { const int k = c.choose(3), n = c.range(2, 5); volume(c, k == 0 ? n : 1, k == 1 ? n : 1, k == 2 ? n : 1, {0, 4, 10, 13, 45, 127, 128, 255}, c.flip() ? 0.25 : 30); }
MC_SCENARIO("volume/boxes") { const int a = c.range(1, 3), b = c.range(1, 3), d = c.range(1, 3); volume(c, a, b, d, {7, 26, 200}, 3.5); }
// a matching problem: assignments, pairs of assignments, and no two points on the same place
static void matching(mc::Ctx& c, int left, int right, int edges) {
   struct As { int l, r; double v; }; struct Ed { int a, b; double v; }; std::vector<As> as; for(int i = 0; i < left; ++i) for(int j = 0; j < right; ++j) if(c.flip()) as.push_back({i, j, 0.5 * i - 1.25 * j + 0.125}); if(c.flip()) std::reverse(as.begin(), as.end()); std::vector<Ed> ed; for(int k = 0; k < edges; ++k) { std::vector<Ed> can; for(size_t i = 0; i < as.size(); ++i) for(size_t j = 0; j < as.size(); ++j) if(as[i].l != as[j].l && as[i].r != as[j].r) can.push_back({(int)i, (int)j, 3.5 + k - 0.5 * i}); if(can.empty()) c.prune(); ed.push_back(c.pick(can)); }
   const bool newline = c.flip(); Files t; const std::string m = t("m.txt"), h = t("m.h5"); { std::ostringstream s; s << "p " << left << " " << right << " " << as.size() << " " << ed.size(); for(size_t i = 0; i < as.size(); ++i) s << "\na " << i << " " << as[i].l << " " << as[i].r << " " << as[i].v; for(auto& e : ed) s << "\ne " << e.a << " " << e.b << " " << e.v; if(newline) s << "\n"; std::ofstream o(m.c_str()); o << s.str(); c.state(mc::mix(std::hash<std::string>()(s.str()), 1)); MC_TRACE(c, s.str()); }
   c.step(); Ran q = program(runMatchingN2N, {m, h}); c.eq(q.rc, 0, "status"); c.check(q.out.find("Wrong") == std::string::npos, "the announced numbers of assignments and edges are found"); Plain gm; oh::load(gm, h, "gm"); c.eq((size_t)gm.numberOfVariables(), (size_t)left, "variables"); RefModel z; z.L.assign(left, right); std::vector<int> lab(left, 0);
   do { double e = 0; for(auto& a : as) if(lab[a.l] == a.r) e += a.v; for(auto& x : ed) if(lab[as[x.a].l] == as[x.a].r && lab[as[x.b].l] == as[x.b].r) e += x.v; for(int i = 0; i < left; ++i) for(int j = i + 1; j < left; ++j) if(lab[i] == lab[j]) e += 1e6; std::vector<size_t> l(lab.begin(), lab.end()); c.near((double)gm.evaluate(l.begin()), e, 1e-6, "value of a labeling"); } while(z.next(lab)); c.outcome(as.size() * 16 + ed.size());
}
MC_SCENARIO("matching/two-points") { matching(c, 2, 2, c.range(0, 2)); }
MC_SCENARIO("matching/two-on-three") { matching(c, 2, 3, c.range(0, c.tier(1, 2))); }
MC_SCENARIO("matching/three-points") { matching(c, 3, 2, c.range(0, c.tier(1, 2))); }
// the same from the left points only, each with one label per assignment and one for staying alone
static void alone(mc::Ctx& c, int left, int right, int edges) {
   struct As { int l, r; double v; int var, lab; }; struct Ed { int a, b; double v; }; std::vector<As> as; std::vector<int> count; for(int i = 0; i < left; ++i) { bool first = true; for(int j = 0; j < right; ++j) if(c.flip()) { if(first) count.push_back(0); first = false; as.push_back({i, j, 0.5 * i - 1.25 * j + 0.125, (int)count.size() - 1, count.back()++}); } } if(as.empty()) c.prune();
   std::vector<Ed> ed; for(int k = 0; k < edges; ++k) { std::vector<Ed> can; for(size_t i = 0; i < as.size(); ++i) for(size_t j = 0; j < as.size(); ++j) { bool used = false; for(auto& e : ed) used = used || (e.a == (int)i && e.b == (int)j) || (e.b == (int)i && e.a == (int)j); if(!used && as[i].l != as[j].l && as[i].r != as[j].r) can.push_back({(int)i, (int)j, 3.5 + k - 0.5 * i}); } if(can.empty()) c.prune(); ed.push_back(c.pick(can)); }
   const bool newline = c.flip(), weight = c.flip(); const double lambda = weight ? 0.5 : 1; Files t; const std::string m = t("m.txt"), h = t("m.h5"); { std::ostringstream s; if(c.flip()) s << "c a comment\n"; s << "p " << left << " " << right << " " << as.size() << " " << ed.size(); for(size_t i = 0; i < as.size(); ++i) s << "\na " << i << " " << as[i].l << " " << as[i].r << " " << as[i].v; for(auto& e : ed) s << "\ne " << e.a << " " << e.b << " " << e.v; if(newline) s << "\n"; std::ofstream o(m.c_str()); o << s.str(); c.state(mc::mix(std::hash<std::string>()(s.str()), weight)); MC_TRACE(c, s.str()); }
   c.step(); Args a = {m, h}; if(weight) a.push_back("0.5"); Ran q = program(runMatching, a); c.eq(q.rc, 0, "status"); c.check(q.out.find("Wrong") == std::string::npos, "the announced numbers of assignments and edges are found"); Plain gm; oh::load(gm, h, "gm"); c.eq((size_t)gm.numberOfVariables(), count.size(), "variables"); RefModel z; for(int x : count) z.L.push_back(x + 1); for(size_t i = 0; i < z.L.size(); ++i) c.eq((int)gm.numberOfLabels(i), z.L[i], "labels"); std::vector<int> lab(z.L.size(), 0);
   do { double e = 0; bool clash = false; for(auto& x : as) if(lab[x.var] == x.lab) { e += x.v; for(auto& y : as) if(y.var != x.var && lab[y.var] == y.lab && y.r == x.r) clash = true; } for(auto& x : ed) if(lab[as[x.a].var] == as[x.a].lab && lab[as[x.b].var] == as[x.b].lab) e += lambda * x.v; std::vector<size_t> l(lab.begin(), lab.end()); const double got = gm.evaluate(l.begin()); if(clash) c.check(got > 9e4, "two points on the same place are forbidden"); else c.near(got, e, 1e-6, "value of a labeling"); } while(z.next(lab)); c.outcome(as.size() * 16 + ed.size());
}
MC_SCENARIO("alone/two-points") { alone(c, 2, 2, c.range(0, 2)); }
MC_SCENARIO("alone/two-on-three") { alone(c, 2, 3, c.range(0, c.tier(1, 2))); }
MC_SCENARIO("alone/three-points") { alone(c, 3, 2, c.range(0, c.tier(1, 2))); }
