// Saved and loaded models against reference tables.
#ifndef C07_HXX
#define C07_HXX
#include "functions.hxx"
#include "models.hxx"
#include <unistd.h>
#include <cstdlib>
#include <cstdio>
#include <fstream>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
inline long openHandles() { hsize_t n = 0, m = 0; H5Inmembers(H5I_GENPROP_LST, &m); n += m; H5Inmembers(H5I_DATASPACE, &m); n += m; return (long)H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL) + (long)n; }
inline std::string scratchFile(const char* name) { const char* d = getenv("MC_TMP"); std::ostringstream o; o << (d ? d : "/tmp") << "/" << name << "-" << getpid() << ".h5"; return o.str(); }
struct Quiet { Quiet() { H5Eset_auto(H5E_DEFAULT, 0, 0); } };
// one (value, index, label) combination with a few lists of function types
template<class T, class I, class L, class OP = opengm::Adder> struct Types {
   typedef opengm::ExplicitFunction<T, I, L> E; typedef opengm::SparseFunction<T, I, L> S; typedef opengm::PottsFunction<T, I, L> P; typedef opengm::PottsNFunction<T, I, L> PN; typedef opengm::PottsGFunction<T, I, L> PG; typedef opengm::AbsoluteDifferenceFunction<T, I, L> A; typedef opengm::TruncatedSquaredDifferenceFunction<T, I, L> TS; typedef opengm::ConstantFunction<T, I, L> C;
   typedef opengm::DiscreteSpace<I, L> Space;
   typedef typename opengm::meta::TypeListGenerator<E, P, S, A, PG, TS, C>::type All; typedef typename opengm::meta::TypeListGenerator<TS, C, S, PN, P, PG, A, E>::type Reversed; typedef typename opengm::meta::TypeListGenerator<E, P>::type Few;
   typedef opengm::GraphicalModel<T, OP, All, Space> Gm; typedef opengm::GraphicalModel<T, OP, Reversed, Space> Other; typedef opengm::GraphicalModel<T, OP, Few, Space> Small; typedef opengm::GraphicalModel<T, OP, All, opengm::SimpleDiscreteSpace<I, L> > Simple;
};
static constexpr int KINDS = 8;
// adds a factor of the given kind over the scope; the table goes into the reference model; prev: reuse the last function of that kind if it fits
template<class G> struct Build {
   typedef typename G::ValueType T; typedef typename G::IndexType I; typedef typename G::LabelType L; typedef Types<T, I, L, typename G::OperatorType> Y;
   static bool add(G& gm, RefModel& r, const std::vector<int>& v, int kind, int seed, int times) {
      RefFactor f; f.v = v; std::vector<L> sh; for(int x : v) sh.push_back((L)r.L[x]); const size_t n = r.tableSize(v); f.t.resize(n); std::vector<double> t(n); for(size_t k = 0; k < n; ++k) t[k] = (double)(((int)k * 5 + seed * 3) % 7); std::vector<I> vi(v.begin(), v.end()); typename G::FunctionIdentifier id;
      auto co = [&](size_t k) { std::vector<size_t> c; for(int x : v) { c.push_back(k % r.L[x]); k /= r.L[x]; } return c; };
      const T a = (T)(seed + 1), b = (T)(seed % 3 + 3);
      switch(kind) {
      case 0: case 7: { typename Y::E e(sh.begin(), sh.end()); if(v.empty()) e(0) = (T)t[0]; for(size_t k = 0; k < n; ++k) { auto c = co(k); if(!v.empty()) e(c.begin()) = (T)t[k]; } f.t = t; id = kind == 7 ? gm.addSharedFunction(e) : gm.addFunction(e); break; }
      case 1: { if(v.size() != 2) return false; for(size_t k = 0; k < n; ++k) { auto c = co(k); f.t[k] = c[0] == c[1] ? a : b; } id = gm.addFunction(typename Y::P(sh[0], sh[1], a, b)); break; }
      case 2: { if(v.empty()) return false; typename Y::S s(sh.begin(), sh.end(), b); for(size_t k = 0; k < n; ++k) f.t[k] = b; for(size_t k = seed % 2; k < n; k += 3) { auto c = co(k); f.t[k] = a; s.insert(c.begin(), a); } id = gm.addFunction(s); break; }
      case 3: { if(v.size() != 2) return false; for(size_t k = 0; k < n; ++k) { auto c = co(k); f.t[k] = (double)a * std::fabs((double)c[0] - (double)c[1]); } id = gm.addFunction(typename Y::A(sh[0], sh[1], a)); break; }
      case 4: { if(v.empty()) return false; typename Y::PG g(sh.begin(), sh.end()); for(size_t k = 0; k < n; ++k) { auto c = co(k); const std::vector<size_t>& P = partitionNumbers(v.size()); const size_t at = std::lower_bound(P.begin(), P.end(), pairNumber(c)) - P.begin(); f.t[k] = (double)(T)(at + seed); std::vector<L> cl(c.begin(), c.end()); g.setByLabel(cl.begin(), (T)(at + seed)); } id = gm.addFunction(g); break; }
      case 5: { if(v.size() != 2) return false; for(size_t k = 0; k < n; ++k) { auto c = co(k); double d = (double)c[0] - (double)c[1]; f.t[k] = (double)b * std::min(d * d, (double)a); } id = gm.addFunction(typename Y::TS(sh[0], sh[1], a, b)); break; }
      default: { if(v.empty()) return false; for(double& x : f.t) x = a; id = gm.addFunction(typename Y::C(sh.begin(), sh.end(), a)); break; }
      }
      for(int i = 0; i < times; ++i) { gm.addFactor(id, vi.begin(), vi.end()); r.f.push_back(f); } return true;
   }
   static G space(const RefModel& r) { std::vector<L> l(r.L.begin(), r.L.end()); return G(typename G::SpaceType(l.begin(), l.end())); }
};
// the model is the reference model
template<class G> void same(mc::Ctx& c, const G& gm, const RefModel& r, double eps = 0) {
   c.eq((size_t)gm.numberOfVariables(), r.L.size(), "variables of the loaded model"); for(size_t i = 0; i < r.L.size(); ++i) c.eq((int)gm.numberOfLabels((typename G::IndexType)i), r.L[i], "label count in the loaded model"); c.eq((size_t)gm.numberOfFactors(), r.f.size(), "factors of the loaded model"); c.eq((int)gm.factorOrder(), refOrder(r), "order of the loaded model");
   for(size_t i = 0; i < r.f.size(); ++i) { const RefFactor& f = r.f[i]; c.eq((size_t)gm[i].numberOfVariables(), f.v.size(), "order of a loaded factor"); for(size_t j = 0; j < f.v.size(); ++j) { c.eq((int)gm[i].variableIndex(j), f.v[j], "variable of a loaded factor"); c.eq((int)gm[i].numberOfLabels(j), r.L[f.v[j]], "label count of a loaded factor"); } c.eq((size_t)gm[i].size(), f.t.size(), "size of a loaded factor"); std::vector<size_t> co(f.v.size() + 1, 0); for(size_t k = 0; k < f.t.size(); ++k) { size_t q = k; for(size_t d = 0; d < f.v.size(); ++d) { co[d] = q % r.L[f.v[d]]; q /= r.L[f.v[d]]; } c.near((double)gm[i](co.begin()), f.t[k], eps, "value of a loaded factor"); } }
   for(size_t v = 0; v < r.L.size(); ++v) { std::vector<size_t> want, got; for(size_t i = 0; i < r.f.size(); ++i) if(std::count(r.f[i].v.begin(), r.f[i].v.end(), (int)v)) want.push_back(i); for(size_t i = 0; i < (size_t)gm.numberOfFactors((typename G::IndexType)v); ++i) got.push_back((size_t)gm.factorOfVariable((typename G::IndexType)v, (typename G::IndexType)i)); c.check(got == want, "factors of a variable of the loaded model"); }
   std::vector<int> lab(r.L.size(), 0); if(r.L.empty()) return; do { std::vector<typename G::LabelType> l(lab.begin(), lab.end()); c.near((double)gm.evaluate(l.begin()), r.eval(lab, IsMult<typename G::OperatorType>::value), eps, "value of a labeling of the loaded model"); } while(r.next(lab));
}
// a model over n variables with k factors of any kinds
template<class G> bool anyTyped(mc::Ctx& c, G& gm, RefModel& r, int n, int k, const std::vector<int>& labels, const std::vector<int>& kinds, int maxOrder) {
   for(int i = 0; i < n; ++i) r.L.push_back(c.pick(labels)); gm = Build<G>::space(r); Scopes s = allScopes(n, 0, std::min(n, maxOrder)); for(int i = 0; i < k; ++i) if(!Build<G>::add(gm, r, c.pick(s), c.pick(kinds), i + 1, i == 0 && c.flip() ? 2 : 1)) return false; return true;
}
template<class F> bool fails(F f) { try { f(); } catch(std::exception&) { return true; } return false; }
#endif
