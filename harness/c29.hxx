// The converters and the command line program, called in process, against reference tables and independent readers of their files.
#ifndef C29_HXX
#define C29_HXX
#include "models.hxx"
#include "c29_run.hxx"
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <iostream>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/pottsg.hxx>
#include <opengm/functions/truncated_absolute_difference.hxx>
#include <opengm/functions/truncated_squared_difference.hxx>
#include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
namespace oh = opengm::hdf5;
typedef opengm::ExplicitFunction<double, size_t, size_t> FE; typedef opengm::PottsFunction<double, size_t, size_t> FP; typedef opengm::PottsNFunction<double, size_t, size_t> FPN; typedef opengm::PottsGFunction<double, size_t, size_t> FPG; typedef opengm::TruncatedSquaredDifferenceFunction<double, size_t, size_t> FTS; typedef opengm::TruncatedAbsoluteDifferenceFunction<double, size_t, size_t> FTA;
typedef opengm::GraphicalModel<double, opengm::Adder, opengm::meta::TypeListGenerator<FE, FP, FPN, FPG, FTS, FTA>::type, opengm::DiscreteSpace<size_t, size_t> > Full;
typedef opengm::GraphicalModel<double, opengm::Adder, opengm::meta::TypeListGenerator<FE, FP>::type, opengm::DiscreteSpace<size_t, size_t> > Few;
typedef opengm::GraphicalModel<double, opengm::Adder, opengm::meta::TypeListGenerator<FE>::type, opengm::DiscreteSpace<size_t, size_t> > Plain;
inline std::string scratch(const char* name) { const char* d = getenv("MC_TMP"); std::ostringstream o; o << (d ? d : "/tmp") << "/" << getpid() << "-" << name; return o.str(); }
struct Files { std::vector<std::string> f; std::string operator()(const char* n) { f.push_back(scratch(n)); std::remove(f.back().c_str()); return f.back(); } ~Files() { for(auto& x : f) { std::remove(x.c_str()); std::remove((x + "~").c_str()); } } };
inline std::string contents(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
// what a program printed, and how it ended
struct Ran { int rc; std::string out; };
template<class F> Ran quietly(F f) { std::ostringstream o; std::streambuf* a = std::cout.rdbuf(o.rdbuf()); std::streambuf* b = std::cerr.rdbuf(o.rdbuf()); std::streambuf* d = std::clog.rdbuf(o.rdbuf()); std::ios fmt(0); fmt.copyfmt(std::cout); Ran r; r.rc = -1; try { r.rc = f(); } catch(const std::exception& e) { o << " exception: " << e.what(); } std::cout.copyfmt(fmt); std::cout.rdbuf(a); std::cerr.rdbuf(b); std::clog.rdbuf(d); r.out = o.str(); return r; }
inline Ran program(int (*f)(const Args&), const Args& a) { return quietly([&] { return f(a); }); }

// adds a factor of one of six function types (0 explicit, 1 Potts, 2 Potts of any order, 3 Potts by partitions, 4 squared, 5 absolute difference) to the model and to the reference
static constexpr int KINDS = 6;
template<class G> bool addKind(G& gm, RefModel& r, const std::vector<int>& v, int kind, int pattern) {
   RefFactor f; f.v = v; r.f.push_back(f); const int fi = (int)r.f.size() - 1; fillPattern(r, fi, pattern); std::vector<double>& t = r.f[fi].t; std::vector<size_t> sh, vi(v.begin(), v.end()); for(int x : v) sh.push_back(r.L[x]);
   auto co = [&](size_t k) { std::vector<size_t> c; for(int x : v) { c.push_back(k % r.L[x]); k /= r.L[x]; } return c; };
   const double a = 0.25 + pattern, b = 1.5 + fi % 2; typename G::FunctionIdentifier id; bool done = false;
   if(kind == 0) { FE e(sh.begin(), sh.end(), 0.0); if(v.empty()) e(0) = t[0]; else for(size_t k = 0; k < t.size(); ++k) e(co(k).begin()) = t[k]; id = gm.addFunction(e); done = true; }
   if constexpr(G::NrOfFunctionTypes >= 2) if(kind == 1 && v.size() == 2) { for(size_t k = 0; k < t.size(); ++k) { auto c = co(k); t[k] = c[0] == c[1] ? a : b; } id = gm.addFunction(FP(sh[0], sh[1], a, b)); done = true; }
   if constexpr(G::NrOfFunctionTypes >= 6) {
      if(kind == 2 && v.size() >= 2) { for(size_t k = 0; k < t.size(); ++k) { auto c = co(k); t[k] = std::count(c.begin(), c.end(), c[0]) == (long)c.size() ? a : b; } id = gm.addFunction(FPN(sh.begin(), sh.end(), a, b)); done = true; }
      if(kind == 3 && v.size() == 2) { for(size_t k = 0; k < t.size(); ++k) { auto c = co(k); t[k] = c[0] == c[1] ? b : a; } double w[2]; { FPG g(sh.begin(), sh.end()); for(size_t k = 0; k < t.size(); ++k) { auto c = co(k); g.setByLabel(c.begin(), t[k]); } id = gm.addFunction(g); } (void)w; done = true; }
      if((kind == 4 || kind == 5) && v.size() == 2) { for(size_t k = 0; k < t.size(); ++k) { auto c = co(k); double d = std::fabs((double)c[0] - (double)c[1]); t[k] = a * std::min(kind == 4 ? d * d : d, b); } id = kind == 4 ? gm.addFunction(FTS(sh[0], sh[1], b, a)) : gm.addFunction(FTA(sh[0], sh[1], b, a)); done = true; }
   }
   if(!done) { r.f.pop_back(); return false; }
   gm.addFactor(id, vi.begin(), vi.end()); return true;
}
template<class G> G emptyModel(const RefModel& r) { std::vector<size_t> l(r.L.begin(), r.L.end()); return G(typename G::SpaceType(l.begin(), l.end())); }
// k factors over any scopes with at most maxOrder variables
template<class G> bool anyKinds(mc::Ctx& c, G& gm, RefModel& r, int n, int k, const std::vector<int>& labels, int minOrder, int maxOrder, int kinds, int patterns) {
   for(int i = 0; i < n; ++i) r.L.push_back(c.pick(labels)); gm = emptyModel<G>(r); Scopes s = allScopes(n, minOrder, std::min(n, maxOrder)); if(s.empty() && k) return false; for(int i = 0; i < k; ++i) { const std::vector<int>& v = c.pick(s); int kind = c.choose(kinds); if(!addKind(gm, r, v, kind, kind == 0 ? c.choose(patterns) : c.choose(2))) return false; } return true;
}
// the model is the reference model, factor by factor and labeling by labeling; rel: relative error of each exp(-value)
template<class G> void same(mc::Ctx& c, const G& gm, const RefModel& r, double eps) {
   c.eq((size_t)gm.numberOfVariables(), r.L.size(), "variables"); for(size_t i = 0; i < r.L.size(); ++i) c.eq((int)gm.numberOfLabels(i), r.L[i], "label count"); c.eq((size_t)gm.numberOfFactors(), r.f.size(), "factors");
   for(size_t i = 0; i < r.f.size(); ++i) { const RefFactor& f = r.f[i]; c.eq((size_t)gm[i].numberOfVariables(), f.v.size(), "order of a factor"); for(size_t j = 0; j < f.v.size(); ++j) c.eq((int)gm[i].variableIndex(j), f.v[j], "variable of a factor"); std::vector<size_t> co(f.v.size() + 1, 0); for(size_t k = 0; k < f.t.size(); ++k) { size_t q = k; for(size_t d = 0; d < f.v.size(); ++d) { co[d] = q % r.L[f.v[d]]; q /= r.L[f.v[d]]; } c.near((double)gm[i](co.begin()), f.t[k], eps, "value of a factor"); } }
   std::vector<int> lab(r.L.size(), 0); if(r.L.empty()) return; do { std::vector<size_t> l(lab.begin(), lab.end()); const double e = r.eval(lab); c.near((double)gm.evaluate(l.begin()), e, eps * (1 + r.f.size()), "value of a labeling"); } while(r.next(lab));
}
#endif
