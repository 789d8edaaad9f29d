// C04: summaries, traversals, comparison and predicates of every built-in function type against its table of values.
#include "functions.hxx"
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/integrator.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/and.hxx>
#include <opengm/operations/or.hxx>

struct Rec { std::vector<double> v; template<class T> void operator()(const T& x) { v.push_back((double)x); } };
struct RecCo { Co sh; std::vector<std::pair<size_t, double> > v; template<class T, class IT> void operator()(const T& x, IT it) { size_t k = 0, s = 1; for(size_t d = 0; d < sh.size(); ++d, ++it) { if((size_t)*it >= sh[d]) { v.push_back({(size_t)-1, 0}); return; } k += (size_t)*it * s; s *= sh[d]; } v.push_back({k, (double)x}); } };
struct RefSum { double mn, mx, sum, prod; RefSum(const Tab& t) : mn(t.v[0]), mx(t.v[0]), sum(0), prod(1) { for(double x : t.v) { mn = std::min(mn, x); mx = std::max(mx, x); sum += x; prod *= x; } } };
inline std::vector<double> switched(const Tab& t) { std::vector<double> r; size_t n = t.v.size(); for(size_t k = 0; k < n; ++k) { Co c(t.sh.size()); size_t q = k; for(int d = (int)t.sh.size() - 1; d >= 0; --d) { c[d] = q % t.sh[d]; q /= t.sh[d]; } r.push_back(t.at(c)); } return r; }
inline std::set<double> setOf(const std::vector<double>& v) { return std::set<double>(v.begin(), v.end()); }
inline std::vector<double> sorted(std::vector<double> v) { std::sort(v.begin(), v.end()); return v; }
inline bool refPotts(const Tab& t) { bool h[2] = {false, false}; double v[2] = {0, 0}; for(size_t k = 0; k < t.v.size(); ++k) { bool e = allEqual(t.co(k)); if(!h[e]) { h[e] = true; v[e] = t.v[k]; } else if(v[e] != t.v[k]) return false; } return true; }
inline bool refGenPotts(const Tab& t) { std::map<size_t, double> m; for(size_t k = 0; k < t.v.size(); ++k) { size_t p = pairNumber(t.co(k)); if(!m.count(p)) m[p] = t.v[k]; else if(m[p] != t.v[k]) return false; } return true; }
inline bool refDiff(const Tab& t, bool sq, bool trunc) {
   std::map<size_t, double> g; for(size_t k = 0; k < t.v.size(); ++k) { Co c = t.co(k); size_t d = c[0] > c[1] ? c[0] - c[1] : c[1] - c[0]; if(!g.count(d)) g[d] = t.v[k]; else if(std::fabs(g[d] - t.v[k]) >= 1e-6) return false; }
   if(std::fabs(g[0]) >= 1e-6) return false;
   double w = g.count(1) ? g[1] : 0; std::vector<double> Ts; if(trunc) for(auto& x : g) Ts.push_back(x.second); else Ts.push_back(0);
   for(double T : Ts) { bool ok = true; for(auto& x : g) { double d = (double)x.first; if(sq) d *= d; double y = w * d; if(trunc) y = w < 0 ? std::max(y, T) : std::min(y, T); ok = ok && std::fabs(x.second - y) < 1e-6; } if(ok) return true; }
   return false;
}
template<class F> static void predicates(Ctx& c, F& f, const Tab& t, bool conservativePotts) {
   if(t.sh.size() >= 2) {
      bool p = refPotts(t); if(conservativePotts) { if(f.isPotts()) c.check(p, "isPotts although the table is not of that form"); } else c.eq((bool)f.isPotts(), p, "isPotts");
      if(t.sh.size() <= 4) c.eq((bool)f.isGeneralizedPotts(), refGenPotts(t), "isGeneralizedPotts");
   }
   if(t.sh.size() == 2 && t.sh[0] >= 2) {
      c.eq((bool)f.isAbsoluteDifference(), refDiff(t, false, false), "isAbsoluteDifference"); c.eq((bool)f.isSquaredDifference(), refDiff(t, true, false), "isSquaredDifference");
      c.eq((bool)f.isTruncatedAbsoluteDifference(), refDiff(t, false, true), "isTruncatedAbsoluteDifference"); c.eq((bool)f.isTruncatedSquaredDifference(), refDiff(t, true, true), "isTruncatedSquaredDifference");
   } else if(t.sh.size() != 2) c.check(!f.isAbsoluteDifference() && !f.isSquaredDifference() && !f.isTruncatedAbsoluteDifference() && !f.isTruncatedSquaredDifference(), "difference predicate of a function that is not of order two");
   if(t.sh.size() == 1) c.check(f.isSubmodular(), "functions of one variable are submodular");
   if(t.sh.size() == 2 && t.sh[0] == 2 && t.sh[1] == 2) c.eq((bool)f.isSubmodular(), t.v[0] + t.v[3] <= t.v[1] + t.v[2], "isSubmodular");
}
static bool fewLabels(const Tab& t) { for(size_t s : t.sh) if(s < t.sh.size()) return true; return false; }
// min, max, sum, product of anything that offers them
template<class F> static void extrema(Ctx& c, F& f, const RefSum& r, double tol) { c.near((double)f.min(), r.mn, 0, "min"); c.near((double)f.max(), r.mx, 0, "max"); c.near((double)f.sum(), r.sum, tol, "sum"); if(std::fabs(r.prod) < 1e30) c.near((double)f.product(), r.prod, 1e-9 * (tol > 1e-6 ? 1e4 : 1) * std::max(1.0, std::fabs(r.prod)), "product"); }
template<class T, class F> static void summaries(Ctx& c, const F& f, Tab t, bool pottsG) {
   for(size_t k = 0; k < t.v.size(); ++k) { Co x = t.co(k); x.push_back(0); t.v[k] = (double)f(x.begin()); }       // values themselves are C03's business
   RefSum r(t); double tol = sizeof(T) == 4 ? 1e-3 : 1e-9; extrema(c, f, r, tol);
   c.near((double)f.minMax().min(), r.mn, 0, "minMax.min"); c.near((double)f.minMax().max(), r.mx, 0, "minMax.max");
   c.near((double)f.template accumulate<opengm::Minimizer>(), r.mn, 0, "accumulate<Minimizer>"); c.near((double)f.template accumulate<opengm::Maximizer>(), r.mx, 0, "accumulate<Maximizer>");
   c.near((double)f.template accumulate<opengm::Adder>(), r.sum, tol, "accumulate<Adder>"); c.near((double)f.template accumulate<opengm::Integrator>(), r.sum, tol, "accumulate<Integrator>"); if(std::fabs(r.prod) < 1e30) c.near((double)f.template accumulate<opengm::Multiplier>(), r.prod, 1e-9 * (tol > 1e-6 ? 1e4 : 1) * std::max(1.0, std::fabs(r.prod)), "accumulate<Multiplier>");
   { Rec q; f.forAllValuesInOrder(q); c.check(q.v == t.v, "forAllValuesInOrder"); } { Rec q; f.forAllValuesInSwitchedOrder(q); c.check(q.v == switched(t), "forAllValuesInSwitchedOrder"); }
   { Rec q; f.forAllValuesInAnyOrder(q); c.check(sorted(q.v) == sorted(t.v), "forAllValuesInAnyOrder"); } { Rec q; f.forAtLeastAllUniqueValues(q); c.check(setOf(q.v) == setOf(t.v), "forAtLeastAllUniqueValues"); }
   auto co = [&](RecCo& q, bool inOrder, bool all, const char* what) { std::set<size_t> seen; std::set<double> vals; bool ok = true; for(size_t i = 0; i < q.v.size(); ++i) { ok = ok && q.v[i].first < t.v.size() && q.v[i].second == t.v[q.v[i].first]; if(inOrder) ok = ok && q.v[i].first == i; seen.insert(q.v[i].first); vals.insert(q.v[i].second); } if(all) ok = ok && seen.size() == t.v.size() && q.v.size() == t.v.size(); c.check(ok && vals == setOf(t.v), what); };
   { RecCo q; q.sh = t.sh; f.forAllValuesInOrderWithCoordinate(q); co(q, true, true, "forAllValuesInOrderWithCoordinate"); } { RecCo q; q.sh = t.sh; f.forAllValuesInAnyOrderWithCoordinate(q); co(q, false, true, "forAllValuesInAnyOrderWithCoordinate"); } { RecCo q; q.sh = t.sh; f.forAtLeastAllUniqueValuesWithCoordinate(q); co(q, false, false, "forAtLeastAllUniqueValuesWithCoordinate"); }
   predicates(c, f, t, pottsG && fewLabels(t)); c.check(f == f, "equal to itself"); { F g(f); c.check(g == f, "a copy is equal"); }
   c.check(!f.isLinearConstraint(), "not a linear constraint"); c.state(t.hash()); c.outcome(mc::mix(mc::bitsOf(r.sum), mc::bitsOf(r.mn)));
}
// calls body with the function type and the generator of family fam
template<class T, class I, class L, class B> static void family(Ctx& c, int fam, int dense, int maxG, B b) {
   typedef Fn<T, I, L> N;
   switch(fam) {
      case 0: N::genExplicit(c, b, dense); break; case 1: N::genSparse(c, b, 2); break; case 2: N::genConstant(c, b); break; case 3: N::genPotts(c, b); break; case 4: N::genPottsN(c, b); break; case 5: N::genPottsG(c, b, maxG); break;
      case 6: N::template genDiff<typename N::AD>(c, b, false, "absolute difference"); break; case 7: N::template genDiff<typename N::SD>(c, b, true, "squared difference"); break;
      case 8: N::template genTrunc<typename N::TAD>(c, b, false, "truncated absolute difference"); break; case 9: N::template genTrunc<typename N::TSD>(c, b, true, "truncated squared difference"); break;
      case 10: N::template genStatic<typename N::SSS>(c, b); break; case 11: N::template genStatic<typename N::SSH>(c, b); break; case 12: N::genFoE(c, b); break;
   }
}
