// Enumerates every built-in function type with small parameters together with the table its definition prescribes.
#ifndef FUNCTIONS_HXX
#define FUNCTIONS_HXX
#include "mc.hxx"
#include <algorithm>
#include <cmath>
#include <deque>
#include <iterator>
#include <set>
#include <numeric>
#include <map>
#include <vector>
#include <opengm/opengm.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/sparsemarray.hxx>
#include <opengm/functions/constant.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/pottsg.hxx>
#include <opengm/functions/absolute_difference.hxx>
#include <opengm/functions/squared_difference.hxx>
#include <opengm/functions/truncated_absolute_difference.hxx>
#include <opengm/functions/truncated_squared_difference.hxx>
#include <opengm/functions/singlesitefunction.hxx>
#include <opengm/functions/fieldofexperts.hxx>
using mc::Ctx;

typedef std::vector<size_t> Co;
struct Tab {
   Co sh; std::vector<double> v;                     // first variable fastest
   Tab() {}
   Tab(const Co& s) : sh(s), v(count(s), 0.0) {}
   static size_t count(const Co& s) { size_t n = 1; for(size_t x : s) n *= x; return n; }
   Co co(size_t k) const { Co c(sh.size()); for(size_t d = 0; d < sh.size(); ++d) { c[d] = k % sh[d]; k /= sh[d]; } return c; }
   size_t idx(const Co& c) const { size_t k = 0, s = 1; for(size_t d = 0; d < sh.size(); ++d) { k += c[d] * s; s *= sh[d]; } return k; }
   double& at(const Co& c) { return v[idx(c)]; }
   double at(const Co& c) const { return v[idx(c)]; }
   template<class F> void fill(F f) { for(size_t k = 0; k < v.size(); ++k) v[k] = f(co(k)); }
   std::string str() const { std::ostringstream s; s << "shape"; for(size_t x : sh) s << " " << x; s << " table"; for(double x : v) s << " " << x; return s.str(); }
   mc::u64 hash() const { mc::u64 h = sh.size(); for(size_t x : sh) h = mc::mix(h, x); for(double x : v) h = mc::mix(h, mc::bitsOf(x)); return h; }
};
inline bool allEqual(const Co& c) { for(size_t x : c) if(x != c[0]) return false; return true; }
inline size_t pairNumber(const Co& c) { size_t n = 0, b = 1; for(size_t i = 1; i < c.size(); ++i) for(size_t j = 0; j < i; ++j) { if(c[i] == c[j]) n += b; b *= 2; } return n; }
// numbers of all set partitions of d elements, ascending (the order of a generalised Potts function's values)
inline const std::vector<size_t>& partitionNumbers(size_t d) {
   static std::map<size_t, std::vector<size_t> > m; std::vector<size_t>& r = m[d]; if(!r.empty()) return r;
   Co c(d, 0); std::set<size_t> s;   // restricted growth strings
   for(;;) {
      s.insert(pairNumber(c)); if(d == 0) break;
      int i = (int)d - 1; for(; i > 0; --i) { size_t mx = 0; for(int j = 0; j < i; ++j) mx = std::max(mx, c[j]); if(c[i] <= mx) { ++c[i]; for(size_t j = i + 1; j < d; ++j) c[j] = 0; break; } }
      if(i <= 0) break;
   }
   r.assign(s.begin(), s.end()); return r;
}
static const std::vector<Co> S1 = {{1}, {2}, {3}, {4}}, S2 = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {2, 4}, {4, 2}}, S3 = {{2, 2, 2}, {1, 2, 3}, {3, 1, 2}, {3, 3, 3}}, S4 = {{2, 2, 2, 2}, {2, 1, 3, 2}};
inline Co shapeUpTo(Ctx& c, int lo, int hi) { int d = c.range(lo, hi); return d == 0 ? Co() : d == 1 ? c.pick(S1) : d == 2 ? c.pick(S2) : d == 3 ? c.pick(S3) : c.pick(S4); }
static const std::vector<double> VALS = {0, 1, -2, 3};
static const std::vector<double> PVALS = {0, 1, 2, 3};

template<class T, class I, class L> struct Fn {
   typedef opengm::ExplicitFunction<T, I, L> E; typedef opengm::SparseFunction<T, I, L> S; typedef opengm::ConstantFunction<T, I, L> C;
   typedef opengm::PottsFunction<T, I, L> P; typedef opengm::PottsNFunction<T, I, L> PN; typedef opengm::PottsGFunction<T, I, L> PG;
   typedef opengm::AbsoluteDifferenceFunction<T, I, L> AD; typedef opengm::SquaredDifferenceFunction<T, I, L> SD;
   typedef opengm::TruncatedAbsoluteDifferenceFunction<T, I, L> TAD; typedef opengm::TruncatedSquaredDifferenceFunction<T, I, L> TSD;
   typedef opengm::StaticSingleSiteFunction<T, 3, opengm::StackStorage> SSS; typedef opengm::StaticSingleSiteFunction<T, 3, opengm::HeapStorage> SSH;
   typedef opengm::DynamicSingleSiteFunction<T> DS; typedef opengm::FoEFunction<T, I, L> FOE;

   static E explicitOf(const Tab& t) { E f(t.sh.begin(), t.sh.end()); for(size_t k = 0; k < t.v.size(); ++k) { Co c = t.co(k); c.push_back(0); f(c.begin()) = static_cast<T>(t.v[k]); } return f; }
   // every table over a small value set if the table is small, otherwise base values plus one odd entry
   static Tab table(Ctx& c, const Co& sh, int dense) {
      Tab t(sh); static const double W[3] = {0, 1, -2};
      if((int)t.v.size() <= dense) { int k = t.v.size() <= 4 ? 3 : 2; for(double& x : t.v) x = W[c.choose(k)]; }
      else { int how = c.choose(3); for(size_t k = 0; k < t.v.size(); ++k) t.v[k] = how == 0 ? (double)((k * 7 + 3) % 11) - 4 : how == 1 ? 1 : -(double)k; int o = c.choose((int)t.v.size() + 1); if(o < (int)t.v.size()) t.v[o] = 9; }
      return t;
   }
   template<class B> static void genExplicit(Ctx& c, B b, int dense) { Tab t = table(c, shapeUpTo(c, 0, 4), dense); MC_TRACE(c, "explicit " << t.str()); b(explicitOf(t), t); }
   template<class B> static void genSparse(Ctx& c, B b, int inserts) {
      Tab t(shapeUpTo(c, 1, 4)); double d = c.pick(std::vector<double>{0, 1}); for(double& x : t.v) x = d;
      S f(t.sh.begin(), t.sh.end(), static_cast<T>(d)); int n = c.range(0, std::min(inserts, (int)t.v.size())); std::set<size_t> used; int lo = 0;
      for(int i = 0; i < n; ++i) {
         int k = lo + c.choose((int)t.v.size() - lo); double v = c.pick(std::vector<double>{0, 1, -2}); t.v[k] = v; Co co = t.co(k); f.insert(co.begin(), static_cast<T>(v)); lo = k + 1; if(lo >= (int)t.v.size()) break;
      }
      MC_TRACE(c, "sparse " << t.str()); b(f, t);
   }
   template<class B> static void genConstant(Ctx& c, B b) { Tab t(shapeUpTo(c, 0, 4)); double v = c.pick(VALS); for(double& x : t.v) x = v; MC_TRACE(c, "constant " << t.str()); b(C(t.sh.begin(), t.sh.end(), static_cast<T>(v)), t); }
   template<class B> static void genPotts(Ctx& c, B b) { Tab t(c.pick(S2)); double e = c.pick(VALS), n = c.pick(VALS); t.fill([&](const Co& x) { return x[0] == x[1] ? e : n; }); MC_TRACE(c, "Potts " << t.str()); b(P((L)t.sh[0], (L)t.sh[1], (T)e, (T)n), t); }
   template<class B> static void genPottsN(Ctx& c, B b) { Tab t(shapeUpTo(c, 1, 4)); double e = c.pick(VALS), n = c.pick(VALS); t.fill([&](const Co& x) { return allEqual(x) ? e : n; }); MC_TRACE(c, "PottsN " << t.str()); b(PN(t.sh.begin(), t.sh.end(), (T)e, (T)n), t); }
   template<class B> static void genPottsG(Ctx& c, B b, int maxD) {
      int d = c.range(1, maxD); Tab t(d == 1 ? c.pick(S1) : d == 2 ? c.pick(S2) : d == 3 ? c.pick(S3) : d == 4 ? c.pick(std::vector<Co>{{2, 2, 2, 2}, {2, 1, 3, 2}, {3, 3, 3, 3}, {4, 4, 4, 4}}) : Co(d, d == 5 && c.flip() ? 5 : 2));
      const std::vector<size_t>& P0 = partitionNumbers(d); std::vector<T> val(P0.size()); int how = d <= 2 ? -1 : d == 3 ? c.choose(2) - 1 : c.choose(3);
      if(how < 0) for(T& x : val) x = static_cast<T>(c.pick(std::vector<double>{0, 1, -2}));
      else { for(size_t i = 0; i < val.size(); ++i) val[i] = static_cast<T>(how == 0 ? (double)((i * 5 + 2) % 199) - 3 : how == 1 ? 0 : 1); if(how && d <= 4) { int o = c.choose((int)val.size() + 1); if(o < (int)val.size()) val[o] = 7; } }
      t.fill([&](const Co& x) { return (double)val[std::lower_bound(P0.begin(), P0.end(), pairNumber(x)) - P0.begin()]; });
      MC_TRACE(c, "PottsG " << t.str());
      int way = c.choose(3);
      if(way == 0) b(PG(t.sh.begin(), t.sh.end(), val.begin()), t);
      else { PG f(t.sh.begin(), t.sh.end()); if(way == 1) for(size_t i = 0; i < P0.size(); ++i) f.setByPartition(P0[i], val[i]); else for(size_t k = 0; k < t.v.size(); ++k) { Co x = t.co(k); f.setByLabel(x.begin(), static_cast<T>(t.v[k])); } b(f, t); }
   }
   template<class F, class B> static void genDiff(Ctx& c, B b, bool sq, const char* name) { Tab t(c.pick(S2)); double w = c.pick(VALS); t.fill([&](const Co& x) { double d = std::fabs((double)x[0] - (double)x[1]); return w * (sq ? d * d : d); }); MC_TRACE(c, name << " " << t.str()); b(F((L)t.sh[0], (L)t.sh[1], (T)w), t); }
   template<class F, class B> static void genTrunc(Ctx& c, B b, bool sq, const char* name) { Tab t(c.pick(S2)); double tr = c.pick(PVALS), w = c.pick(VALS); t.fill([&](const Co& x) { double d = std::fabs((double)x[0] - (double)x[1]); if(sq) d *= d; return w * std::min(d, tr); }); MC_TRACE(c, name << " " << t.str()); b(F((L)t.sh[0], (L)t.sh[1], (T)tr, (T)w), t); }
   template<class F, class B> static void genStatic(Ctx& c, B b) { Tab t(Co(1, 3)); F f; for(int i = 0; i < 3; ++i) { t.v[i] = c.pick(VALS); Co x(1, i); f(x.begin()) = static_cast<T>(t.v[i]); } MC_TRACE(c, "single site " << t.str()); b(f, t); }
   template<class B> static void genFoE(Ctx& c, B b) {
      int d = c.range(1, 3), e = c.range(1, 2), l = c.range(1, 3); std::vector<T> ex, al; for(int i = 0; i < d * e; ++i) ex.push_back((T)(c.flip() ? 1.5 : -0.5)); for(int i = 0; i < e; ++i) al.push_back((T)(c.flip() ? 1 : -2));
      Tab t(Co(d, l)); t.fill([&](const Co& x) { T r = 0; for(int k = 0; k < e; ++k) { T dot = 0; for(int j = 0; j < d; ++j) dot += ex[k * d + j] * (T)x[j]; r += al[k] * std::log(1 + 0.5 * dot * dot); } return (double)r; });
      MC_TRACE(c, "field of experts " << t.str()); if(c.flip()) b(FOE(ex, al, (L)l), t); else { std::vector<T> a2(al), e2(ex); b(FOE(e2.begin(), a2.begin(), (L)l, (I)d, (size_t)e), t); }
   }
};
#endif
