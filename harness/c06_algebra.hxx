// C06: algebra of factors and independent factors against pointwise arithmetic on tables.
#include <memory>
#include "functions.hxx"
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/integrator.hxx>
#include <opengm/operations/logsumexp.hxx>
#include <opengm/operations/and.hxx>
#include <opengm/operations/or.hxx>
#include <opengm/operations/normalize.hxx>
#include <opengm/operations/weightedoperations.hxx>
using namespace opengm;
#ifdef C06_WIDE   // more variables than the small buffers hold
static const size_t NV = 12, LAB[12] = {2, 1, 2, 2, 3, 1, 2, 2, 1, 2, 2, 2};
static const std::vector<int> MASKS = {0, 1, 0x800, 0x00f, 0x01f, 0x03f, 0x07f, 0x0ff, 0x1ff, 0x3ff, 0x7ff, 0xfff, 0xaaa, 0x555, 0xff0, 0xf0f, 0x9d3};
#elif defined C06_MANYLABELS   // more labels than a byte holds
static const size_t NV = 4, LAB[4] = {2, 257, 1, 2};
static const std::vector<int> MASKS = {0, 1, 2, 3, 6, 8, 9, 10, 11, 14, 15};
#else
static const size_t NV = 4, LAB[4] = {2, 3, 1, 2};
static const std::vector<int> MASKS = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
#endif
struct RF { std::vector<size_t> vi; Tab t; RF() : t(Co()) {} RF(unsigned mask, int variant) { Co sh; for(size_t i = 0; i < NV; ++i) if(mask >> i & 1) { vi.push_back(i); sh.push_back(LAB[i]); } t = Tab(sh); for(size_t k = 0; k < t.v.size(); ++k) t.v[k] = variant == 0 ? 2 + (double)((k * 5 + 1) % 7) : variant == 1 ? (double)((k * 3) % 5) - 2.5 : variant == 2 ? 1 : variant == 3 ? ((k & 1) ? -1 : 0) : 4; }
   static RF on(const std::vector<size_t>& vi) { RF r; r.vi = vi; Co sh; for(size_t v : vi) sh.push_back(LAB[v]); r.t = Tab(sh); return r; }
   double at(const Co& x) const { Co y; for(size_t v : vi) y.push_back(x[v]); return t.at(y); }          // x: a label for every variable
   Co full(const Co& y) const { Co x(NV, 0); for(size_t i = 0; i < vi.size(); ++i) x[vi[i]] = y[i]; return x; } };
template<class F> static RF merge(const RF& a, const RF& b, F f) { std::vector<size_t> u; std::set_union(a.vi.begin(), a.vi.end(), b.vi.begin(), b.vi.end(), std::back_inserter(u)); RF r = RF::on(u); r.t.fill([&](const Co& y) { Co x = r.full(y); return f(a.at(x), b.at(x)); }); return r; }
template<class F> static RF mapv(const RF& a, F f) { RF r(a); for(double& x : r.t.v) x = f(x); return r; }
template<class IF> static void same(Ctx& c, const IF& f, const RF& r, const char* what, double tol = 0) {
   c.eq((size_t)f.numberOfVariables(), r.vi.size(), what); c.eq((size_t)f.size(), r.t.v.size(), what); std::vector<size_t> v(f.variableIndicesBegin(), f.variableIndicesEnd()); c.check(v == r.vi, what); Co s(f.shapeBegin(), f.shapeEnd()); c.check(s == r.t.sh, what);
   for(size_t d = 0; d < r.vi.size(); ++d) { c.eq((size_t)f.numberOfLabels(d), r.t.sh[d], what); c.eq((size_t)f.variableIndex(d), r.vi[d], what); }
   for(size_t k = 0; k < r.t.v.size(); ++k) { Co x = r.t.co(k); x.push_back(0); double e = r.t.v[k]; c.near((double)f(x.begin()), e, tol * std::max(1.0, std::fabs(e)), what); }
}
template<class T, class I, class L> struct Alg {
   typedef Fn<T, I, L> N; typedef GraphicalModel<T, Adder, typename meta::TypeListGenerator<typename N::E, typename N::P, typename N::PN, typename N::C>::type, DiscreteSpace<I, L> > GM; typedef typename GM::IndependentFactorType IF; typedef typename GM::FactorType FA;
   std::unique_ptr<GM> gm;
   Alg() { std::vector<L> l(LAB, LAB + NV); gm.reset(new GM(DiscreteSpace<I, L>(l.begin(), l.end()))); }
   static double rd(double x) { return (double)(T)x; }
   // a factor of the model holding r (function type by ft; the table is replaced by that type's)
   size_t factor(RF& r, int ft) {
      for(double& x : r.t.v) x = rd(x); std::vector<I> vi(r.vi.begin(), r.vi.end()); std::vector<L> sh(r.t.sh.begin(), r.t.sh.end()); typename GM::FunctionIdentifier id;
      if(ft == 1 && vi.size() == 2) { r.t.fill([](const Co& x) { return x[0] == x[1] ? 3.0 : 5.0; }); id = gm->addFunction(typename N::P(sh[0], sh[1], 3, 5)); }
      else if(ft == 2 && vi.size()) { r.t.fill([](const Co& x) { return allEqual(x) ? 3.0 : 5.0; }); id = gm->addFunction(typename N::PN(sh.begin(), sh.end(), 3, 5)); }
      else if(ft == 3) { r.t.fill([](const Co&) { return 4.0; }); id = gm->addFunction(typename N::C(sh.begin(), sh.end(), 4)); }
      else id = gm->addFunction(N::explicitOf(r.t));
      return gm->addFactor(id, vi.begin(), vi.end());
   }
   IF indep(RF& r) { for(double& x : r.t.v) x = rd(x); std::vector<I> vi(r.vi.begin(), r.vi.end()); IF f(*gm, vi.begin(), vi.end(), (T)0); for(size_t k = 0; k < r.t.v.size(); ++k) { Co x = r.t.co(k); x.push_back(0); f(x.begin()) = (T)r.t.v[k]; } return f; }
};
#define OPS(X) X(0, +, +=, a + b) X(1, -, -=, a - b) X(2, *, *=, a * b) X(3, /, /=, b == 0 ? 0.0 : a / b) X(4, ||, |=, (double)(a || b)) X(5, &&, &=, (double)(a && b))
inline double apply(int op, double a, double b) { switch(op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; case 4: return a || b; case 5: return a && b; case 6: return std::min(a, b); default: return std::max(a, b); } }
template<class T> struct MinF { T operator()(T a, T b) { return std::min(a, b); } }; template<class T> struct MaxF { T operator()(T a, T b) { return std::max(a, b); } }; template<class T> struct Twice { T operator()(T a) { return a * 2 + 1; } };
template<class R, class A, class B> static R binary(int op, const A& a, const B& b) { switch(op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; case 4: return a || b; default: return a && b; } }
template<class A, class B> static void inplace(int op, A& a, const B& b) { switch(op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; case 3: a /= b; break; case 4: a |= b; break; default: a &= b; } }
