// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -Wno-deprecated-declarations HDF5
// C20: reparametrisations; every small model with every small message vector, compared labeling by labeling.
#include "models.hxx"
#include <opengm/inference/auxiliary/lp_reparametrization.hxx>
#include <opengm/inference/auxiliary/lp_reparametrization_hdf5.hxx>
#include <opengm/inference/trws/trws_trws.hxx>
typedef GmOf<double, opengm::Adder>::type GM; typedef opengm::Minimizer Min; typedef opengm::Maximizer Max;
typedef opengm::LPReparametrisationStorage<GM> Storage;
static std::vector<double> flat(const Storage& s) { std::vector<double> v; s.serialize(&v); return v; }
static size_t slots(const RefModel& r) { size_t n = 0; for(auto& f : r.f) if(f.v.size() > 1) for(int v : f.v) n += r.L[v]; return n; }
static bool canonical(const RefModel& r) { std::vector<int> n(r.L.size(), 0); for(auto& f : r.f) if(f.v.size() == 1) n[f.v[0]]++; for(int x : n) if(x != 1) return false; return true; }
// value of factor i under the messages d (the plain definition)
struct Plain {
   const RefModel& r; std::vector<std::vector<std::vector<double> > > m;   // factor, position, label
   Plain(const RefModel& r, const std::vector<double>& d) : r(r) { size_t k = 0; for(auto& f : r.f) { m.emplace_back(); if(f.v.size() > 1) for(int v : f.v) { m.back().emplace_back(); for(int l = 0; l < r.L[v]; ++l) m.back().back().push_back(d[k++]); } } }
   double variable(int v, int l) const { double s = 0; for(size_t i = 0; i < r.f.size(); ++i) { auto& f = r.f[i]; if(f.v.size() == 1 && f.v[0] == v) s += f.t[l]; else if(f.v.size() > 1) for(size_t p = 0; p < f.v.size(); ++p) if(f.v[p] == v) s -= m[i][p][l]; } return s; }
   double factor(size_t i, const std::vector<int>& lab) const { auto& f = r.f[i]; if(f.v.size() == 1) return variable(f.v[0], lab[f.v[0]]); double s = r.factorValue((int)i, lab); for(size_t p = 0; p < f.v.size() && f.v.size() > 1; ++p) s += m[i][p][lab[f.v[p]]]; return s; }
};
static std::vector<size_t> local(const RefFactor& f, const std::vector<int>& lab) { std::vector<size_t> x; for(int v : f.v) x.push_back(lab[v]); x.push_back(0); return x; }
// the storage against the definition; `exact`: messages are the given ones
static void checkStorage(mc::Ctx& c, const RefModel& r, const GM& gm, const Storage& s, const std::vector<double>& d) {
   Plain p(r, d); c.check(&s.graphicalModel() == &gm, "the storage knows its model"); size_t k = 0;
   for(size_t i = 0; i < r.f.size(); ++i) if(r.f[i].v.size() > 1) for(size_t q = 0; q < r.f[i].v.size(); ++q) { auto& u = s.get(i, q); c.eq((int)u.size(), r.L[r.f[i].v[q]], "one message entry per label"); for(double x : u) c.near(x, d[k++], 1e-12, "message entry"); c.eq((int)s.localId(i, r.f[i].v[q]), (int)q, "position of a variable in a factor"); }
   std::vector<int> lab(r.L.size(), 0);
   do { double t = 0; for(size_t v = 0; v < r.L.size(); ++v) { double x = s.getVariableValue(v, lab[v]); c.near(x, p.variable((int)v, lab[v]), 1e-9, "variable value"); t += x; }
        for(size_t i = 0; i < r.f.size(); ++i) { auto x = local(r.f[i], lab); double y = s.getFactorValue(i, x.begin()); c.near(y, p.factor(i, lab), 1e-9, "factor value"); if(r.f[i].v.size() != 1) t += y; }
        c.near(t, r.eval(lab), 1e-9, "variables and factors sum to the energy of the labeling"); } while(r.next(lab));
}
template<class ACC> struct Repa : opengm::LPReparametrizer<GM, ACC> { typedef opengm::LPReparametrizer<GM, ACC> P; Repa(const GM& gm) : P(gm) {} };
template<class REPA> static void checkModel(mc::Ctx& c, const RefModel& r, const REPA& repa, const std::vector<double>& d) {
   typename REPA::ReparametrizedGMType g; repa.getReparametrizedModel(g); Plain p(r, d);
   c.eq((int)g.numberOfFactors(), (int)r.f.size(), "as many factors"); c.eq((int)g.numberOfVariables(), (int)r.L.size(), "as many variables"); std::vector<int> lab(r.L.size(), 0); const bool can = canonical(r);
   for(size_t i = 0; i < r.f.size(); ++i) { c.eq((int)g[i].numberOfVariables(), (int)r.f[i].v.size(), "factor order"); for(size_t q = 0; q < r.f[i].v.size(); ++q) { c.eq((int)g[i].variableIndex(q), r.f[i].v[q], "factor variable"); c.eq((int)g[i].numberOfLabels(q), r.L[r.f[i].v[q]], "factor shape"); } c.eq((int)g[i].size(), (int)r.tableSize(r.f[i].v), "factor size"); }
   do { for(size_t i = 0; i < r.f.size(); ++i) { auto x = local(r.f[i], lab); c.near(g[i](x.begin()), p.factor(i, lab), 1e-9, "factor of the reparametrised model"); } if(can) c.near(g.evaluate(lab.begin()), r.eval(lab), 1e-9, "the reparametrised model has the same energy"); } while(r.next(lab));
}
// one unary factor per variable: what arc consistency promises
template<class ACC, class REPA> static void checkArcs(mc::Ctx& c, const RefModel& r, REPA& repa, const std::vector<double>& d) {
   const bool maxi = ACC::bop(1, 0); Plain p(r, d); std::vector<bool> mask(3, true); std::vector<size_t> x(1, 7); size_t order = 2; for(auto& f : r.f) order = std::max(order, f.v.size()); repa.getArcConsistency(&mask, &x, order);
   c.eq(mask.size(), r.L.size(), "one mark per variable"); c.check(validLabeling(r, x), "locally optimal labels are labels"); if(!validLabeling(r, x)) return; std::vector<int> xi = toInt(x); auto better = [&](double a, double b) { return maxi ? a > b : a < b; };
   for(size_t v = 0; v < r.L.size(); ++v) for(int l = 0; l < r.L[v]; ++l) c.check(!better(p.variable((int)v, l), p.variable((int)v, xi[v])), "each label is locally optimal");
   std::vector<double> opt(r.f.size()); bool all = true; double sum = 0;
   for(size_t i = 0; i < r.f.size(); ++i) { std::vector<int> lab(r.L.size(), 0); opt[i] = p.factor(i, lab); do if(better(p.factor(i, lab), opt[i])) opt[i] = p.factor(i, lab); while(r.next(lab)); sum += opt[i]; }
   for(size_t v = 0; v < r.L.size(); ++v) {
      bool may = true, must = true; all = all && mask[v];
      for(size_t i = 0; i < r.f.size(); ++i) { auto& f = r.f[i]; if(f.v.size() < 2 || std::find(f.v.begin(), f.v.end(), (int)v) == f.v.end()) continue; bool some = false, every = true; std::vector<int> lab(r.L.size(), 0); do if(p.factor(i, lab) == opt[i]) { if(lab[v] == xi[v]) some = true; else every = false; } while(r.next(lab)); const bool joint = p.factor(i, xi) == opt[i]; may = may && some; must = must && (joint || every); }
      if(mask[v]) c.check(may, "a consistent label belongs to an optimal configuration of every factor at the variable"); if(must) c.check(mask[v], "a label that agrees with every factor's optimum is consistent");
   }
   if(all) { c.near(r.eval(xi), r.best(false, maxi), 1e-9, "labels that are consistent everywhere are an optimal labeling"); c.near(sum, r.eval(xi), 1e-9, "the bound is attained"); }
   c.check(!better(r.best(false, maxi), sum), "the sum of the local optima bounds the optimum"); c.outcome(all); c.outcome(2 + mask.size());
}
static std::vector<double> messages(mc::Ctx& c, const RefModel& r, const std::vector<double>& val) { size_t n = slots(r); std::vector<double> d(n); size_t done = 0; while(done < n) { size_t m = std::min<size_t>(n - done, 6); int q = c.choose((int)ipow(val.size(), m)); for(size_t k = 0; k < m; ++k) { d[done + k] = val[q % val.size()]; q /= (int)val.size(); } done += m; } return d; }
template<class ACC> static void one(mc::Ctx& c, const RefModel& r, const std::vector<double>& d, int how) {
   MC_TRACE(c, r.str() + " messages " + show(d)); uint64_t h = r.hash(); for(double x : d) h = mc::mix(h, mc::bitsOf(x)); c.state(h); c.step(); GM gm; build(gm, r); Repa<ACC> repa(gm); Storage& s = repa.Reparametrization();
   { auto z = flat(s); c.eq(z.size(), slots(r), "one number per message entry"); for(double x : z) c.eq(x, 0.0, "messages start at zero"); }
   if(how == 0) s.deserialize(d);
   else if(how == 1) { size_t k = 0; for(size_t i = 0; i < r.f.size(); ++i) if(r.f[i].v.size() > 1) for(size_t q = 0; q < r.f[i].v.size(); ++q) { auto it = s.getIterators(i, q); for(; it.first != it.second; ++it.first) *it.first = d[k++]; } }
   else if(d.empty()) c.prune();
   else { Storage t(gm); t.deserialize(d); const char* dir = getenv("MC_TMP"); std::string file = std::string(dir ? dir : "/tmp") + "/c20_" + std::to_string((long)getpid()) + ".h5"; opengm::hdf5::save(t, file, "repa"); opengm::hdf5::load(&s, file, "repa"); ::unlink(file.c_str()); }
   c.check(flat(s) == d, "messages read back are the ones set"); checkStorage(c, r, gm, s, d); checkModel(c, r, repa, d); if(canonical(r)) checkArcs<ACC>(c, r, repa, d);
   if(how == 0) { for(int e = -1; e <= 1; e += 2) if(!(e < 0 && d.empty())) { std::vector<double> w(d); w.resize(d.size() + e); Storage t(gm); bool thrown = false; try { t.deserialize(w); } catch(std::runtime_error&) { thrown = true; } c.check(thrown, "a message vector of the wrong length is refused"); }
      for(size_t i = 0; i < r.f.size(); ++i) if(r.f[i].v.size() > 1) for(size_t v = 0; v < r.L.size(); ++v) if(std::find(r.f[i].v.begin(), r.f[i].v.end(), (int)v) == r.f[i].v.end()) { bool thrown = false; try { s.localId(i, v); } catch(std::runtime_error&) { thrown = true; } c.check(thrown, "a variable that is not in the factor has no position"); } }
}
template<class F> static void either(mc::Ctx& c, F f) { if(c.flip()) f((Max*)0); else f((Min*)0); }
#define ONE(r, d, how) do { if(c.flip()) one<Max>(c, r, d, how); else one<Min>(c, r, d, how); } while(0)
static RefModel unaries(const std::vector<int>& L, const Scopes& s, bool first = true) { Scopes all; if(!first) all = s; for(size_t i = 0; i < L.size(); ++i) all.push_back({(int)i}); if(first) all.insert(all.end(), s.begin(), s.end()); return fixedModel(L, all); }
MC_SCENARIO("repa/pair") { RefModel r = unaries({c.range(1, 2), 2}, {{0, 1}}, c.flip()); for(int i = 0; i < 3; ++i) fillPattern(r, i, c.choose(5)); auto d = messages(c, r, {-1, 0, 2}); ONE(r, d, 0); }
MC_SCENARIO("repa/pair/values") { RefModel r = unaries({2, 2}, {{0, 1}}); fillAll(c, r, 0, {0, 1}); fillAll(c, r, 1, {0, -1}); fillAll(c, r, 2, {0, -1, 1}); auto d = messages(c, r, c.thorough ? std::vector<double>{-1, 0, 1} : std::vector<double>{0, 1}); ONE(r, d, 1); }
MC_SCENARIO("repa/any") { RefModel r = anyModel(c, c.range(1, 3), {1, 2}, c.range(0, c.tier(3, 4)), 0, 3, c.tier(2, 3), true); for(auto& f : r.f) if(f.v.size() == 2 && c.flip()) { /* keep scopes sorted */ } std::vector<double> d(slots(r)); int q = c.choose(4); for(size_t i = 0; i < d.size(); ++i) d[i] = q == 0 ? 0 : q == 1 ? (int)(i * 5 % 7) - 3 : q == 2 ? (i % 2 ? -1 : 4) : i * 0.5; int how = c.choose(r.f.size() > 3 ? 2 : 3); one<Min>(c, r, d, how); }
MC_SCENARIO("repa/chain") { RefModel r = unaries({2, c.range(1, 3), 2}, {{0, 1}, {1, 2}}, c.flip()); int p = c.choose(4), q = c.choose(3); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, r.f[i].v.size() == 1 ? p : q + 1); auto d = messages(c, r, c.thorough ? std::vector<double>{-1, 0, 1} : std::vector<double>{0, -1}); ONE(r, d, 1); }
MC_SCENARIO("repa/third order") { RefModel r = unaries({2, 2, 2}, {{0, 1, 2}, {0, 2}}, c.flip()); int p = c.choose(5), q = c.choose(5); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, r.f[i].v.size() == 1 ? p : q); auto d = messages(c, r, {0, c.flip() ? 1.0 : -2.0}); ONE(r, d, 0); }
// messages found by the tree-reweighted solvers
typedef opengm::trws_base::DecompositionStorage<GM> Decomp; typedef opengm::trws_base::FunctionParameters<GM> FP;
static double chainBest(const RefModel& r, Decomp& s, int k, bool maxi) {   // by enumeration over the labels of the chain's variables
   auto& m = s.subModel(k); const int n = (int)m.size(); std::vector<int> lab(r.L.size(), 0), vars; for(int i = 0; i < n; ++i) vars.push_back((int)m.varIndex(i)); bool first = true; double best = 0;
   std::function<void(int)> go = [&](int i) { if(i == n) { double v = 0; for(int j = 0; j < n; ++j) v += *(m.ufBegin(j) + lab[vars[j]]); for(int j = 0; j + 1 < n; ++j) v += r.factorValue((int)m.pwForwardFactor(j), lab); if(first || (maxi ? v > best : v < best)) { best = v; first = false; } return; } for(lab[vars[i]] = 0; lab[vars[i]] < r.L[vars[i]]; ++lab[vars[i]]) go(i + 1); lab[vars[i]] = 0; };
   go(0); return best;
}
static double localSum(const RefModel& r, const Plain& p, bool maxi) { double s = 0; for(size_t i = 0; i < r.f.size(); ++i) { std::vector<int> lab(r.L.size(), 0); double b = p.factor(i, lab); do { double v = p.factor(i, lab); b = maxi ? std::max(b, v) : std::min(b, v); } while(r.next(lab)); s += b; } return s; }
template<class ACC> static void trws(mc::Ctx& c, const RefModel& r, int structure, int iterations, int mode, bool fast) {
   typedef opengm::TRWS_Reparametrizer<Decomp, ACC> R; const bool maxi = ACC::bop(1, 0); MC_TRACE(c, r.str() + " structure " + std::to_string(structure) + " mode " + std::to_string(mode)); c.state(mc::mix(r.hash(), structure * 64 + mode)); c.step(); GM gm; build(gm, r);
   typename Decomp::StructureType st = structure == 0 ? Decomp::GENERALSTRUCTURE : structure == 1 ? Decomp::EDGESTRUCTURE : Decomp::GRIDSTRUCTURE;
   std::unique_ptr<Decomp> own; std::unique_ptr<FP> fp; std::unique_ptr<R> repa; typedef opengm::TRWSi<GM, ACC> T; std::unique_ptr<T> solver; Decomp* dec;
   if(iterations == 0) { own.reset(new Decomp(gm, st)); fp.reset(new FP(gm)); repa.reset(new R(*own, *fp, typename R::Parameter(fast))); dec = own.get(); }
   else { typename T::Parameter p(iterations, st); p.fastComputations_ = fast; solver.reset(new T(gm, p)); solver->infer(); repa.reset(solver->getReparametrizer(typename R::Parameter(fast))); dec = 0; }
   const size_t n = r.L.size(); std::vector<std::vector<bool> > fixed;
   if(mode == 0) repa->reparametrize();
   else if(mode <= 2) { std::vector<bool> mask(n); for(size_t i = 0; i < n; ++i) mask[i] = c.flip(); repa->reparametrize(&mask); if(mode == 2) { repa->reparametrize(&mask); repa->reparametrize(); } }
   else { for(size_t i = 0; i < n; ++i) { fixed.emplace_back(); for(int l = 0; l < r.L[i]; ++l) fixed.back().push_back(c.flip()); } repa->reparametrize(fixed); }
   std::vector<double> d = flat(repa->Reparametrization()); bool finite = true; for(double x : d) finite = finite && std::isfinite(x); c.check(finite, "messages are finite"); if(!finite) return;
   checkStorage(c, r, gm, repa->Reparametrization(), d); checkModel(c, r, *repa, d); Plain p(r, d); double sum = localSum(r, p, maxi);
   c.check(maxi ? sum >= r.best(false, true) - 1e-9 : sum <= r.best(false, false) + 1e-9, "the sum of the local optima bounds the optimum");
   if(dec && mode == 0) { double bound = 0; for(size_t k = 0; k < dec->numberOfModels(); ++k) bound += chainBest(r, *dec, (int)k, maxi); c.check(maxi ? sum <= bound + 1e-9 : sum >= bound - 1e-9, "the local optima are at least as tight as the bound of the decomposition"); if(dec->numberOfModels() == 1) c.near(sum, r.best(false, maxi), 1e-9, "on one chain the local optima sum to the optimum"); }
   if(mode == 3) for(size_t i = 0; i < r.f.size(); ++i) if(r.f[i].v.size() == 2) {
      for(int q = 0; q < 2; ++q) for(int l = 0; l < r.L[r.f[i].v[q]]; ++l) if(fixed[r.f[i].v[q]][l]) c.eq(repa->Reparametrization().get(i, q)[l], 0.0, "immovable labels keep zero messages");
      for(int a = 0; a < r.L[r.f[i].v[0]]; ++a) for(int b = 0; b < r.L[r.f[i].v[1]]; ++b) { bool fa = fixed[r.f[i].v[0]][a], fb = fixed[r.f[i].v[1]][b]; if(fa && fb) continue; std::vector<int> lab(n, 0); lab[r.f[i].v[0]] = a; lab[r.f[i].v[1]] = b; double v = p.factor(i, lab); c.check(maxi ? v <= 1e-9 : v >= -1e-9, "entries of a movable label are not better than zero"); }
   }
   if(dec) {   // messages carried back into a decomposition: chains sum to the model again
      Decomp other(gm, st); opengm::LPtoDecompositionStorage(repa->Reparametrization(), &other); std::vector<std::vector<double> > u(n); for(size_t v = 0; v < n; ++v) u[v].assign(r.L[v], 0);
      double bound = 0; for(size_t k = 0; k < other.numberOfModels(); ++k) { auto& m = other.subModel(k); for(size_t i = 0; i < m.size(); ++i) for(int l = 0; l < r.L[m.varIndex(i)]; ++l) u[m.varIndex(i)][l] += *(m.ufBegin(i) + l); bound += chainBest(r, other, (int)k, maxi); }
      for(size_t i = 0; i < r.f.size(); ++i) if(r.f[i].v.size() == 1) for(int l = 0; l < r.L[r.f[i].v[0]]; ++l) c.near(u[r.f[i].v[0]][l], r.f[i].t[l], 1e-9, "the chains' unary values sum to the model's");
      c.check(maxi ? bound <= sum + 1e-9 : bound >= sum - 1e-9, "chains are at least as tight as single factors"); c.outcome(std::fabs(bound - r.best(false, maxi)) < 1e-9);
   }
   c.outcome((uint64_t)(int64_t)(sum * 8));
}
static const Scopes graphs[] = {{{0, 1}}, {{0, 1}, {1, 2}}, {{0, 2}, {1, 2}}, {{0, 1}, {0, 2}}, {{0, 1}, {1, 2}, {0, 2}}, {{0, 1}, {0, 2}, {0, 3}}, {{0, 1}, {0, 2}, {1, 3}, {2, 3}}, {{0, 1}, {1, 2}, {2, 3}}, {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}, {{0, 1}, {2, 3}}, {{0, 1}, {0, 3}, {1, 2}, {1, 4}, {2, 5}, {3, 4}, {4, 5}}};
static RefModel graph(mc::Ctx& c, int g, int labels) { int n = 0; for(auto& s : graphs[g]) n = std::max(n, s.back() + 1); std::vector<int> L; for(int i = 0; i < n; ++i) L.push_back(labels > 2 && i % 2 ? 3 : labels > 1 ? 2 : 1 + i % 2); RefModel r = unaries(L, graphs[g]); int p = c.choose(5), q = c.choose(5); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, r.f[i].v.size() == 1 ? p : q); return r; }
static int structureOf(mc::Ctx& c, int g) { if(g == 6 || g == 7 || g == 1 || g == 10) return c.choose(3); return c.choose(2); }
#define TRWS(r, s, it, mode, fast) do { if(c.flip()) trws<Max>(c, r, s, it, mode, fast); else trws<Min>(c, r, s, it, mode, fast); } while(0)
MC_SCENARIO("trws/reparametrize") { int g = c.choose(11); RefModel r = graph(c, g, c.range(1, 3)); int s = structureOf(c, g), it = c.choose(3); bool fast = c.flip(); TRWS(r, s, it, 0, fast); }
MC_SCENARIO("trws/mask") { int g = c.choose(10); RefModel r = graph(c, g, 2 + (g % 2)); int s = structureOf(c, g), it = c.choose(2); bool fast = c.thorough ? c.flip() : true; int mode = c.range(1, 2); TRWS(r, s, it, mode, fast); }
MC_SCENARIO("trws/immovable") { int g = c.choose(c.tier(5, 8)); RefModel r = graph(c, g, g < 5 ? c.range(2, 3) : 2); int s = structureOf(c, g); if(!c.thorough && g == 4 && c.flip()) c.prune(); TRWS(r, s, 0, 3, true); }
