// FLAGS: -O0 -D_GLIBCXX_ASSERTIONS -DWITH_HDF5 HDF5
// C29 (1): the UAI writer and reader.
#include "c29.hxx"
// an independent reader of the UAI format: preamble, scopes, tables with the last variable fastest
struct Uai { std::vector<int> L; std::vector<RefFactor> f; bool ok; };
static Uai parse(const std::string& text) {
   Uai u; u.ok = false; std::istringstream i(text); std::string type; if(!(i >> type) || type != "MARKOV") return u; long n, k; if(!(i >> n)) return u; for(long j = 0; j < n; ++j) { int l; if(!(i >> l)) return u; u.L.push_back(l); } if(!(i >> k)) return u;
   for(long j = 0; j < k; ++j) { long o; if(!(i >> o)) return u; RefFactor f; for(long d = 0; d < o; ++d) { int v; if(!(i >> v)) return u; f.v.push_back(v); } u.f.push_back(f); }
   for(RefFactor& f : u.f) { size_t m; if(!(i >> m)) return u; size_t want = 1; for(int v : f.v) { if(v < 0 || v >= n) return u; want *= u.L[v]; } if(m != want) return u; f.t.resize(m); for(size_t k2 = 0; k2 < m; ++k2) { size_t q = k2, at = 0; std::vector<size_t> stride(f.v.size(), 1); for(size_t d = 1; d < f.v.size(); ++d) stride[d] = stride[d - 1] * u.L[f.v[d - 1]]; for(size_t d = f.v.size(); d-- > 0;) { at += q % u.L[f.v[d]] * stride[d]; q /= u.L[f.v[d]]; } std::string w; if(!(i >> w)) return u; char* e; f.t[at] = strtod(w.c_str(), &e); if(*e) return u; } }
   std::string rest; u.ok = !(i >> rest); return u;
}
// what the reader makes of a number in a table
static double cost(double x) { return x == 0 ? 1e7 : std::min(-std::log(x), 1e7); }
static void written(mc::Ctx& c, const RefModel& r, const std::string& text) {
   Uai u = parse(text); c.check(u.ok, "the written file is a complete UAI file"); c.check(u.L == r.L, "variables of the written file"); c.eq(u.f.size(), r.f.size(), "factors of the written file");
   for(size_t i = 0; i < r.f.size(); ++i) { c.check(u.f[i].v == r.f[i].v, "scope in the written file"); for(size_t k = 0; k < r.f[i].t.size(); ++k) { double x = std::exp(-r.f[i].t[k]); c.near(u.f[i].t[k], x, 1e-5 * x, "potential in the written file"); } }
}
// writes the model, reads it back; the values have the precision of the text
static void there(mc::Ctx& c, const Full& gm, const RefModel& r) {
   Files t; const std::string h = t("m.h5"), u = t("m.uai"), b = t("b.h5"); oh::save(gm, h, "gm"); c.state(r.hash()); c.step(); MC_TRACE(c, r.str());
   Ran w = program(runOpengm2Uai, {h, u}); c.eq(w.rc, 0, "status of the writer"); const std::string text = contents(u); written(c, r, text);
   Ran q = program(runUai2Opengm, {u, b}); c.eq(q.rc, 0, "status of the reader"); RefModel z(r); for(auto& f : z.f) for(double& x : f.t) x = cost(std::exp(-x)); Plain p; oh::load(p, b, "gm"); same(c, p, z, 2e-5);
   Full g; oh::load(g, b, "gm"); same(c, g, z, 2e-5); const std::string u2 = t("n.uai"); oh::save(g, h, "gm"); c.eq(program(runOpengm2Uai, {h, u2}).rc, 0, "status of the second writer"); Uai one = parse(text), two = parse(contents(u2)); c.check(two.ok && two.L == one.L && two.f.size() == one.f.size(), "the second file has the same shape"); 
   for(size_t i = 0; i < one.f.size(); ++i) { c.check(one.f[i].v == two.f[i].v, "the second file has the same scopes"); for(size_t k = 0; k < one.f[i].t.size(); ++k) c.near(two.f[i].t[k], one.f[i].t[k], 2e-5 * one.f[i].t[k], "the second file has the same values"); } c.outcome(r.hash());
}
static void models(mc::Ctx& c, int n, int k, const std::vector<int>& labels, int kinds, int patterns) { RefModel r; Full gm; if(!anyKinds(c, gm, r, n, k, labels, 0, 2, kinds, patterns)) c.prune(); there(c, gm, r); }
MC_SCENARIO("uai/no-variables") { models(c, 0, c.range(0, 1), {2}, 1, 2); }
MC_SCENARIO("uai/one-variable") { models(c, 1, c.range(0, c.tier(2, 3)), {1, 2, 3}, 1, c.tier(2, 5)); }
MC_SCENARIO("uai/two-variables") { models(c, 2, c.range(1, c.tier(1, 2)), {1, 2, 3}, KINDS, c.tier(2, 3)); }
MC_SCENARIO("uai/three-variables") { models(c, 3, c.range(1, c.tier(1, 2)), c.thorough ? std::vector<int>{1, 2, 3} : std::vector<int>{2, 3}, c.tier(2, KINDS), c.tier(1, 2)); }
MC_SCENARIO("uai/mixed") { RefModel r; const int n = c.range(2, 4); for(int i = 0; i < n; ++i) r.L.push_back(2 + (i + n) % 3); Full gm = emptyModel<Full>(r); const int first = c.choose(KINDS); for(int i = 0; i < n; ++i) { addKind(gm, r, {i}, 0, i % 5); for(int j = i + 1; j < n; ++j) addKind(gm, r, {i, j}, (first + i + j) % KINDS, (i * j) % 2); } if(c.flip()) addKind(gm, r, {}, 0, 1); there(c, gm, r); }
// values from tiny to huge, forbidden labels and labels for free
MC_SCENARIO("uai/values") { const std::vector<double> x = {0, -0.5, 1e-3, 12.25, -12.25, 80, -80, 300, 650, 800, 1e6, std::numeric_limits<double>::infinity()}; RefModel r = fixedModel({2, 2}, {{0}, {0, 1}}); r.f[0].t = {c.pick(x), 1}; r.f[1].t = {0, c.pick(x), 2, c.pick(x)}; Full gm; build(gm, r); there(c, gm, r); }
// many labels, many variables and values on many lines
MC_SCENARIO("uai/large") { RefModel r; Full gm; switch(c.choose(4)) { case 0: r.L = {257}; gm = emptyModel<Full>(r); addKind(gm, r, {0}, 0, 0); break; case 1: r.L = {64, 65}; gm = emptyModel<Full>(r); addKind(gm, r, {0, 1}, c.choose(KINDS), 0); break; case 2: r.L.assign(12, 2); gm = emptyModel<Full>(r); for(int i = 0; i < 12; ++i) { addKind(gm, r, {i}, 0, 1); if(i) addKind(gm, r, {i - 1, i}, i % KINDS, 0); } break; default: r.L.assign(130, 1); r.L[100] = 3; gm = emptyModel<Full>(r); for(int i = 129; i >= 0; --i) addKind(gm, r, {i}, 0, i % 5); addKind(gm, r, {7, 100}, 0, 0); break; } there(c, gm, r); }
// higher order factors are refused
MC_SCENARIO("uai/refused") { RefModel r; r.L = {2, 2, 2}; Full gm = emptyModel<Full>(r); const int k = c.choose(3); for(int i = 0; i < 3; ++i) { if(i == k) addKind(gm, r, {0, 1, 2}, c.flip() ? 0 : 2, 0); else addKind(gm, r, {i}, 0, 0); } Files t; const std::string h = t("m.h5"), u = t("m.uai"); oh::save(gm, h, "gm"); c.state(r.hash()); c.step(); Ran w = program(runOpengm2Uai, {h, u}); c.check(w.rc != 0, "a factor of higher order is refused"); c.outcome(w.rc); }
// files written by hand: scopes in any order, any order of factors, several layouts
static std::string text(const RefModel& r, int layout) {
   std::ostringstream o; o << (layout == 1 ? "  MARKOV  " : "MARKOV") << "\n"; const char* nl = layout == 2 ? " " : layout == 1 ? "\n\n" : "\n"; const char* sp = layout == 1 ? "\n" : layout == 2 ? "\t" : " "; o << r.L.size() << nl; for(int l : r.L) o << l << sp; o << nl << r.f.size() << nl; for(auto& f : r.f) { o << f.v.size(); for(int v : f.v) o << sp << v; o << nl; }
   o.precision(layout == 2 ? 17 : 12); if(layout == 2) o << std::scientific; for(auto& f : r.f) { o << nl << f.t.size() << nl; const size_t n = f.t.size(); for(size_t k = 0; k < n; ++k) { size_t q = k, at = 0, s = 1; std::vector<size_t> stride; for(int v : f.v) { stride.push_back(s); s *= r.L[v]; } for(size_t d = f.v.size(); d-- > 0;) { at += q % r.L[f.v[d]] * stride[d]; q /= r.L[f.v[d]]; } o << (k ? sp : "") << f.t[at]; } if(layout != 2 || &f != &r.f.back()) o << nl; } return o.str();
}
static void read(mc::Ctx& c, RefModel r, int layouts) {
   for(auto& f : r.f) for(double& x : f.t) x = x == 0 ? 0 : std::exp(-x); const int layout = c.choose(layouts); c.state(mc::mix(r.hash(), layout)); c.step(); MC_TRACE(c, r.str() << " layout " << layout); Files t; const std::string u = t("m.uai"), b = t("b.h5"); { std::ofstream o(u.c_str()); o << text(r, layout); }
   Ran q = program(runUai2Opengm, {u, b}); c.eq(q.rc, 0, "status of the reader"); Plain p; oh::load(p, b, "gm");
   RefModel z; z.L = r.L; for(auto& f : r.f) { RefFactor g; g.v = f.v; std::sort(g.v.begin(), g.v.end()); g.t.resize(f.t.size()); std::vector<int> lab(r.L.size(), 0); for(size_t k = 0; k < g.t.size(); ++k) { size_t q2 = k; for(int v : g.v) { lab[v] = q2 % r.L[v]; q2 /= r.L[v]; } g.t[k] = cost(f.t[r.index(f.v, lab)]); } z.f.push_back(g); } same(c, p, z, 1e-9); c.outcome(z.hash());
}
static Scopes orderedScopes(int n, int maxOrder) { Scopes s; for(auto& v : allScopes(n, 0, maxOrder)) { std::vector<int> w(v); do s.push_back(w); while(std::next_permutation(w.begin(), w.end())); } return s; }
static RefModel handwritten(mc::Ctx& c, int n, int k, const std::vector<int>& labels, int maxOrder) { RefModel r; for(int i = 0; i < n; ++i) r.L.push_back(c.pick(labels)); Scopes s = orderedScopes(n, std::min(n, maxOrder)); for(int i = 0; i < k; ++i) { RefFactor f; f.v = c.pick(s); r.f.push_back(f); fillPattern(r, i, i % 2 ? 4 : 0); } return r; }
MC_SCENARIO("uai/read-one-variable") { read(c, handwritten(c, 1, c.range(0, 2), {1, 2, 3}, 1), 3); }
MC_SCENARIO("uai/read-two-variables") { read(c, handwritten(c, 2, c.range(1, 2), {1, 2, 3}, 2), 3); }
MC_SCENARIO("uai/read-three-variables") { read(c, handwritten(c, 3, c.range(1, c.tier(1, 2)), {1, 2, 3}, 3), c.tier(1, 3)); }
MC_SCENARIO("uai/read-four-variables") { read(c, handwritten(c, 4, 1, c.thorough ? std::vector<int>{1, 2, 3} : std::vector<int>{2, 3}, 4), 1); }
MC_SCENARIO("uai/read-five-variables") { RefModel r; r.L = {2, 3, 2, 4, 3}; std::vector<int> v = {0, 1, 2, 3, 4}; const int k = c.choose(c.tier(60, 120)); for(int i = 0; i < k; ++i) std::next_permutation(v.begin(), v.end()); RefFactor f; f.v = v; r.f.push_back(f); fillPattern(r, 0, 0); read(c, r, 1); }
// what is not a MARKOV network, or is missing, is refused
MC_SCENARIO("uai/bad-files") { Files t; const std::string u = t("m.uai"), b = t("b.h5"); const int k = c.choose(5); { std::ofstream o(u.c_str()); o << (k == 0 ? "BAYES\n1\n2\n1\n1 0\n2\n0.5 0.5\n" : k == 1 ? "" : k == 2 ? "MARKOVIAN\n0\n0\n" : "MARKOV"); } c.state(k); c.step(); Ran q = k == 4 ? program(runUai2Opengm, {u + "x", b}) : program(runUai2Opengm, {u, b}); c.check(q.rc > 0, "a bad file is refused"); c.check(contents(b).empty(), "no model is written for a bad file"); c.eq(program(runUai2Opengm, {u}).rc, 1, "a missing argument is refused"); c.outcome(k); }
