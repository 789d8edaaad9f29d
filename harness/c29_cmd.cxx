// FLAGS: -O0 -D_GLIBCXX_ASSERTIONS -DWITH_HDF5 -DWITH_BOOST HDF5
// C29 (3): the command line program: evaluation, model information, and the labelings and protocols of its algorithms.
#include "c29.hxx"
static std::vector<int> loadStates(mc::Ctx& c, const std::string& f) { std::vector<int> v; hid_t h = marray::hdf5::openFile(f); marray::Vector<size_t> w; marray::hdf5::load(h, "states", w); marray::hdf5::closeFile(h); for(size_t i = 0; i < w.size(); ++i) v.push_back((int)w(i)); return v; }
static std::vector<double> loadValues(const std::string& f, const char* name) { std::vector<double> v; hid_t h = marray::hdf5::openFile(f); marray::Vector<double> w; marray::hdf5::load(h, name, w); marray::hdf5::closeFile(h); for(size_t i = 0; i < w.size(); ++i) v.push_back(w(i)); return v; }
static std::vector<int> textStates(const std::string& text) { std::vector<int> v; std::istringstream i(text); std::string l; while(std::getline(i, l)) if(l == "%states") { std::getline(i, l); std::istringstream j(l); int x; char semi; while(j >> x >> semi) v.push_back(x); } return v; }
static bool mentions(const std::string& out, const std::string& key, const std::string& value) { std::istringstream i(out); std::string l; while(std::getline(i, l)) { if(l.compare(0, key.size(), key)) continue; size_t p = l.find(':'); if(p == std::string::npos) continue; std::string v = l.substr(p + 1); v.erase(0, v.find_first_not_of(' ')); if(v == value) return true; } return false; }
static std::string num(size_t n) { return std::to_string(n); }
// every labeling of the model is evaluated, from text and HDF5 files, with short and long option names
MC_SCENARIO("cmd/evaluate") {
   RefModel r; Full gm; const int n = c.range(1, 3); if(!anyKinds(c, gm, r, n, c.range(1, c.tier(1, 2)), {1, 3}, 0, 2, c.thorough ? KINDS : 2, 2)) c.prune(); Files t; const std::string h = t("m.h5"), e = t("x.txt"), e5 = t("x.h5"); const bool other = c.flip(); oh::save(gm, h, other ? "other" : "gm"); c.state(r.hash()); c.step(); MC_TRACE(c, r.str()); std::vector<int> lab(n, 0); const int how = c.choose(4);
   do { { std::remove(e5.c_str()); std::ofstream o(e.c_str()); o << "%wrong\n9; 9; 9; \n\n%lab\n"; for(int x : lab) o << x << "; "; o << "\n"; } if(how & 1) { hid_t f = marray::hdf5::createFile(e5); std::vector<size_t> v(lab.begin(), lab.end()); marray::hdf5::save(f, "lab", v); marray::hdf5::closeFile(f); }
        const std::string m = h + (other ? ":other" : ""), x = (how & 1 ? e5 : e) + ":lab"; Ran q = program(runMinSum, how & 2 ? Args{"--evaluate", x, "--model", m} : Args{"-m", m, "-e", x}); c.eq(q.rc, 0, "status"); size_t p = q.out.find("result:"); c.check(p != std::string::npos, "the result is printed"); const double got = atof(q.out.c_str() + p + 7), want = r.eval(lab); c.near(got, want, 1e-6 * (1 + std::fabs(want)), "printed value of a labeling"); } while(r.next(lab)); c.outcome(how);
}
MC_SCENARIO("cmd/information") {
   RefModel r; Full gm; const int n = c.range(1, 4); if(!anyKinds(c, gm, r, n, c.range(0, 2), {2, 3}, 1, 3, 1, 1)) c.prune(); Files t; const std::string h = t("m.h5"); oh::save(gm, h, "gm"); c.state(r.hash()); c.step(); MC_TRACE(c, r.str()); Ran q = program(runMinSum, {"-m", h + ":gm", "--modelinfo"}); c.eq(q.rc, 0, "status"); const int lo = *std::min_element(r.L.begin(), r.L.end()), hi = *std::max_element(r.L.begin(), r.L.end());
   c.check(mentions(q.out, "Number of Variables", num(n)), "number of variables"); c.check(mentions(q.out, "Number of Factors", num(r.f.size())), "number of factors"); c.check(mentions(q.out, "Model-Order", num(refOrder(r))), "order"); c.check(mentions(q.out, "Number of States", lo == hi ? num(lo) : "[" + num(lo) + "," + num(hi) + "]"), "label counts"); c.check(mentions(q.out, "Acyclic Model", refAcyclic(r) ? "1" : "0"), "acyclic"); c.outcome(refOrder(r));
}
// what is asked for must exist
MC_SCENARIO("cmd/refused") { RefModel r = fixedModel({2, 2}, {{0}, {0, 1}}); fillPattern(r, 0, 0); fillPattern(r, 1, 0); Full gm; build(gm, r); Files t; const std::string h = t("m.h5"), o = t("o.h5"); oh::save(gm, h, "gm"); const int k = c.choose(7); c.state(k); c.step(); Args a; switch(k) { case 0: break; case 1: a = {"-a", "ICM", "-o", o}; break; case 2: a = {"-m", h + ":gm", "-a", "NOSUCH", "-o", o}; break; case 3: a = {"-m", h + ":gm", "-o", o}; break; case 4: a = {"-m", h + "x:gm", "-a", "ICM", "-o", o}; break; case 5: a = {"-m", h + ":missing", "-a", "ICM", "-o", o}; break; default: a = {"-m", h + ":gm", "-a", "GRAPHCUT", "-mf", "NOSUCH", "-o", o}; } H5Eset_auto(H5E_DEFAULT, 0, 0); Ran q = program(runMinSum, a); c.check(q.rc != 0, "a bad command line is refused"); c.check(contents(o).empty(), "nothing is written for a bad command line"); c.outcome(k); }
MC_SCENARIO("cmd/help") { const std::vector<std::string> names = {"", "ICM", "BRUTEFORCE", "ASTAR", "LAZYFLIPPER", "GRAPHCUT", "TRWSi", "BELIEFPROPAGATION"}; const int k = c.choose((int)names.size()); Args a = {c.flip() ? "-h" : "--help"}; if(k) { a.push_back("-a"); a.push_back(names[k]); } c.state(k); c.step(); Ran q = program(runMinSum, a); c.eq(q.rc, 0, "status"); std::string out = q.out, key = k ? names[k] : "algorithm"; for(char& x : out) x = (char)toupper(x); for(char& x : key) x = (char)toupper(x); c.check(out.find(key) != std::string::npos, "the help names what it is about"); c.outcome(k); }
// one algorithm on one model: the stored labeling is one, its value is the last one of the protocol, and its quality is what the algorithm promises
enum { ANY, EXACT, IMPROVES };
struct Algo { const char* name; Args more; int promise; bool exactValue; };
static void solve(mc::Ctx& c, const Full& gm, const RefModel& r, const Algo& al) {
   c.state(mc::mix(r.hash(), std::hash<std::string>()(al.name))); c.step(); MC_TRACE(c, al.name << " " << show(al.more) << " " << r.str()); Files t; const std::string h = t("m.h5"), o = t("o.h5"), txt = t("o.txt"); oh::save(gm, h, "gm"); const int how = c.choose(4); const bool text = how == 3, proto = how == 1 || how == 2; if(how == 2) { std::ofstream f(o.c_str()); f << "old"; }
   Args a = {"-m", h + ":gm", "-a", al.name}; if(how) a = {"--algorithm", al.name, "--model", h}; a.push_back(how & 1 ? "-o" : "--outputfile"); a.push_back(text ? txt : o); if(proto) { a.push_back(how & 1 ? "-p" : "--protocolate"); a.push_back("1"); } a.insert(a.end(), al.more.begin(), al.more.end()); Ran q = program(runMinSum, a); if(q.rc) c.fail("the program failed: " + q.out.substr(q.out.size() > 300 ? q.out.size() - 300 : 0));
   std::vector<int> s = text ? textStates(contents(txt)) : loadStates(c, o); c.check(validLabeling(r, s), "the stored states are a labeling"); const double e = r.eval(s); if(how == 2) c.check(contents(o + "~") == "old", "an old output file is kept");
   if(proto) { std::vector<double> v = loadValues(o, "values"); c.check(!v.empty(), "the protocol has values"); if(al.exactValue) c.near(v.back(), e, 1e-9 * (1 + std::fabs(e)), "the last value of the protocol is the value of the stored states"); std::vector<double> b = loadValues(o, "bounds"); c.eq(b.size(), v.size(), "as many bounds as values"); const double best = r.best(false, false); for(double x : b) c.check(x <= best + 1e-7 * (1 + std::fabs(best)), "a bound of the protocol"); }
   if(al.promise == EXACT) c.near(e, r.best(false, false), 1e-6 * (1 + std::fabs(e)), "the stored states are optimal"); if(al.promise == IMPROVES) { std::vector<int> z(r.L.size(), 0); c.check(e <= r.eval(z) + 1e-9, "the stored states are no worse than the start"); } c.outcome(mc::bitsOf(e));
}
static void anySmall(mc::Ctx& c, const std::vector<Algo>& al, int maxOrder, int n, int k) { RefModel r; Full gm; if(!anyKinds(c, gm, r, n, k, {2, 3}, 1, maxOrder, c.thorough ? KINDS : 2, c.tier(1, 2))) c.prune(); solve(c, gm, r, c.pick(al)); }
static const std::vector<Algo> general = {{"BRUTEFORCE", {}, EXACT, true}, {"ASTAR", {}, EXACT, true}, {"ASTAR", {"--heuristic", "STANDARD"}, EXACT, true}, {"ICM", {}, IMPROVES, true}, {"LAZYFLIPPER", {"--maxsize", "4"}, EXACT, true}, {"LAZYFLIPPER", {}, IMPROVES, true}};
MC_SCENARIO("cmd/general-two") { anySmall(c, general, 2, 2, c.range(1, c.tier(2, 3))); }
MC_SCENARIO("cmd/general-three") { anySmall(c, general, 3, 3, c.range(1, c.tier(1, 2))); }
// trees and cycles with unaries and pairwise factors of every kind
static Full grid(mc::Ctx& c, RefModel& r, int shape, int labels, bool submodular) { static const std::vector<Scopes> S = {{{0, 1}, {1, 2}}, {{0, 1}, {0, 2}, {0, 3}}, {{0, 1}, {1, 2}, {0, 2}}, {{0, 1}, {2, 3}, {0, 2}, {1, 3}}}; const int n = shape == 0 || shape == 2 ? 3 : 4; r.L.assign(n, labels); Full gm = emptyModel<Full>(r); const int p = c.choose(4), kind = submodular ? c.pick(std::vector<int>{1, 4, 5}) : c.choose(KINDS); for(int i = 0; i < n; ++i) addKind(gm, r, {i}, 0, (p + i) % 5); for(size_t i = 0; i < S[shape].size(); ++i) addKind(gm, r, S[shape][i], submodular ? kind : (kind + (int)i) % KINDS, submodular ? 0 : (p + (int)i) % 3); return gm; }
static const std::vector<Algo> onTrees = {{"BELIEFPROPAGATION", {"--maxIt", "20"}, EXACT, true}, {"TRBP", {"--maxIt", "20"}, EXACT, true}, {"TRWSi", {"--maxIt", "20"}, EXACT, true}, {"ASTAR", {}, EXACT, true}, {"DDSubgradient", {"--subInf", "DPTree", "--decomp", "Tree", "--maxIt", "60"}, EXACT, true}, {"ADSal", {"--maxIt", "20"}, ANY, true}, {"BRUTEFORCE", {}, EXACT, true}};
MC_SCENARIO("cmd/trees") { RefModel r; Full gm = grid(c, r, c.choose(2), c.range(2, 3), false); solve(c, gm, r, c.pick(onTrees)); }
static const std::vector<Algo> onCycles = {{"BELIEFPROPAGATION", {"--maxIt", "10"}, ANY, true}, {"TRBP", {"--maxIt", "10"}, ANY, true}, {"TRWSi", {"--maxIt", "10"}, ANY, true}, {"ASTAR", {}, EXACT, true}, {"DDSubgradient", {"--subInf", "DPTree", "--decomp", "SpanningTrees", "--maxIt", "10"}, ANY, true}, {"DDSubgradient", {"--subInf", "DPHTree", "--decomp", "SpanningTrees", "--maxIt", "10"}, ANY, true}, {"ADSal", {"--maxIt", "5"}, ANY, true}, {"Nesterov", {"--maxIt", "5"}, ANY, true}, {"LAZYFLIPPER", {"--maxsize", "4"}, EXACT, true}, {"ICM", {}, IMPROVES, true}, {"GreedyGremlin", {}, ANY, true}, {"INFANDFLIP", {"--inf", "LBP"}, ANY, true}, {"Fusion", {"--fusion", "LF", "--numIt", "5"}, ANY, true}, {"Fusion", {"-f", "LF", "-g", "AB-SWAP", "--numIt", "5"}, ANY, true}, {"Fusion", {"--fusion", "LF", "--gen", "RANDOM", "--numIt", "5"}, ANY, true}, {"Fusion", {"--fusion", "LF", "--gen", "RANDOMLF", "--numIt", "5"}, ANY, true}, {"Fusion", {"--fusion", "LF", "--gen", "NU_RANDOM", "-temp", "2", "--numIt", "5"}, ANY, true}, {"Fusion", {"--fusion", "LF", "--gen", "UP-DOWN", "--numIt", "5"}, ANY, true}, {"SelfFusion", {"--fusion", "LF", "--inf", "LBP", "--numIt", "3"}, ANY, true}};
MC_SCENARIO("cmd/cycles") { RefModel r; Full gm = grid(c, r, 2 + c.choose(2), c.range(2, 3), false); solve(c, gm, r, c.pick(onCycles)); }
static const std::vector<Algo> onSubmodular = {{"GRAPHCUT", {}, EXACT, true}, {"GRAPHCUT", {"-mf", "BOOST_KOLMOGOROV"}, EXACT, true}, {"GRAPHCUT", {"-mf", "BOOST_PUSH_RELABEL"}, EXACT, true}, {"GRAPHCUT", {"--maxflow", "BOOST_EDMONDS_KARP"}, EXACT, true}, {"ALPHAEXPANSION", {}, EXACT, true}, {"ALPHABETASWAP", {}, EXACT, true}, {"QPBO", {}, EXACT, true}};
MC_SCENARIO("cmd/submodular") { RefModel r; Full gm = grid(c, r, c.choose(4), 2, true); solve(c, gm, r, c.pick(onSubmodular)); }
static const std::vector<Algo> onPotts = {{"ALPHAEXPANSION", {}, IMPROVES, true}, {"ALPHAEXPANSION", {"--labelInitialType", "LOCALOPT", "--maxIt", "10"}, ANY, true}, {"ALPHABETASWAP", {"--maxIt", "10"}, IMPROVES, true}, {"PARTITIONMOVE", {}, ANY, true}};
MC_SCENARIO("cmd/metric") { RefModel r; Full gm = grid(c, r, c.choose(4), 3, true); solve(c, gm, r, c.pick(std::vector<Algo>(onPotts.begin(), onPotts.begin() + 3))); }
// a starting point from a file
MC_SCENARIO("cmd/start") { RefModel r; Full gm = grid(c, r, c.choose(4), 2, false); std::vector<int> x; for(size_t i = 0; i < r.L.size(); ++i) x.push_back(c.flip()); const bool icm = c.flip(); Files t; const std::string h = t("m.h5"), o = t("o.h5"), s = t("x.txt"); oh::save(gm, h, "gm"); { std::ofstream f(s.c_str()); f << "%start\n"; for(int y : x) f << y << "; "; f << "\n"; } c.state(mc::mix(r.hash(), icm)); c.step(); MC_TRACE(c, show(x) << r.str()); Args a = {"-m", h + ":gm", "-a", icm ? "ICM" : "LAZYFLIPPER", "-o", o, c.flip() ? "-x0" : "--startingpoint", s + ":start"}; if(!icm) { a.push_back("--maxsize"); a.push_back("1"); } Ran q = program(runMinSum, a); c.eq(q.rc, 0, "status"); std::vector<int> y = loadStates(c, o); c.check(validLabeling(r, y), "the stored states are a labeling"); const double e = r.eval(y); c.check(e <= r.eval(x) + 1e-9, "no worse than the start"); bool local = true; for(size_t i = 0; i < y.size(); ++i) { std::vector<int> z(x); z[i] = 1 - z[i]; if(r.eval(z) < r.eval(x) - 1e-9) local = false; } if(local) c.check(y == x || std::fabs(e - r.eval(x)) < 1e-9, "a local optimum given as start is kept"); c.outcome(mc::bitsOf(e)); }
