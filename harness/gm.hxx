// Reference model of a discrete graphical model: plain tables, brute force everything.
#ifndef GM_HXX
#define GM_HXX
#include "mc.hxx"
#include <algorithm>
#include <limits>
#include <set>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>

struct RefFactor { std::vector<int> v; std::vector<double> t; };   // first variable fastest
struct RefModel;
inline double eliminate(const RefModel& r, bool mult = false, bool maximize = false, bool sum = false);
struct RefModel {
   std::vector<int> L; std::vector<RefFactor> f;
   size_t tableSize(const std::vector<int>& v) const { size_t n = 1; for(int x : v) n *= L[x]; return n; }
   size_t index(const std::vector<int>& v, const std::vector<int>& lab) const { size_t k = 0, s = 1; for(int x : v) { k += s * lab[x]; s *= L[x]; } return k; }
   double factorValue(int i, const std::vector<int>& lab) const { return f[i].t[index(f[i].v, lab)]; }
   double eval(const std::vector<int>& lab, bool mult = false) const {
      double r = mult ? 1 : 0; for(size_t i = 0; i < f.size(); ++i) { double x = factorValue((int)i, lab); if(mult) r *= x; else r += x; } return r;
   }
   bool next(std::vector<int>& lab) const { for(size_t i = 0; i < L.size(); ++i) { if(++lab[i] < L[i]) return true; lab[i] = 0; } return false; }
   size_t size() const { size_t n = 1; for(int l : L) n *= l; return n; }
   bool many() const { double n = 1; for(int l : L) n *= l; return n > 20000; }
   double best(bool mult, bool maximize, int* count = 0, std::vector<int>* arg = 0) const {
      if(many()) { if(count) *count = 0; return eliminate(*this, mult, maximize); }   // too many labelings to list
      std::vector<int> lab(L.size(), 0); bool first = true; double b = 0; int n = 0;
      do { double e = eval(lab, mult); if(first || (maximize ? e > b : e < b)) { b = e; n = 0; first = false; if(arg) *arg = lab; } if(e == b) ++n; } while(next(lab));
      if(count) *count = n; return b;
   }
   unsigned long long hash() const { unsigned long long h = L.size(); for(int l : L) h = mc::mix(h, l); for(const RefFactor& x : f) { h = mc::mix(h, 91); for(int v : x.v) h = mc::mix(h, v); for(double t : x.t) h = mc::mix(h, mc::bitsOf(t)); } return h; }
   std::string str() const {
      std::ostringstream s; s << "labels"; for(int l : L) s << " " << l;
      for(const RefFactor& x : f) { s << "; f("; for(size_t i = 0; i < x.v.size(); ++i) s << (i ? "," : "") << x.v[i]; s << ")=["; for(size_t i = 0; i < x.t.size(); ++i) s << (i ? " " : "") << x.t[i]; s << "]"; }
      return s.str();
   }
};
// the optimum by eliminating one variable after the other, always one with the fewest neighbours
inline double eliminate(const RefModel& r, bool mult, bool maximize, bool sum) {
   struct T { std::vector<int> v; std::vector<double> t; }; std::vector<T> f; double out = mult ? 1 : 0; std::vector<char> gone(r.L.size(), 0);
   auto join = [&](double a, double b) { return mult ? a * b : a + b; };
   for(auto& x : r.f) { T t; t.v = x.v; t.t = x.t; if(x.v.empty()) out = join(out, x.t[0]); else f.push_back(t); }
   for(size_t round = 0; round < r.L.size(); ++round) {
      std::vector<std::set<int> > nb(r.L.size()); for(auto& x : f) for(int a : x.v) for(int b : x.v) if(a != b) nb[a].insert(b);
      int v = -1; for(size_t i = 0; i < nb.size(); ++i) if(!gone[i] && (v < 0 || nb[i].size() < nb[v].size())) { v = (int)i; if(nb[i].size() < 2) break; }
      gone[v] = 1; T z; z.v.assign(nb[v].begin(), nb[v].end()); std::vector<T> in, rest; for(auto& x : f) (std::find(x.v.begin(), x.v.end(), v) != x.v.end() ? in : rest).push_back(x);
      z.t.assign(r.tableSize(z.v), 0); std::map<int, int> at; for(size_t k = 0; k < z.t.size(); ++k) {
         size_t q = k; for(int u : z.v) { at[u] = (int)(q % r.L[u]); q /= r.L[u]; }
         double b = 0; for(int l = 0; l < r.L[v]; ++l) { at[v] = l; double s = mult ? 1 : 0; for(auto& x : in) { size_t p = 0, m = 1; for(int u : x.v) { p += m * at[u]; m *= r.L[u]; } s = join(s, x.t[p]); } if(sum) b = l ? b + s : s; else if(!l || (maximize ? s > b : s < b)) b = s; }
         z.t[k] = b;
      }
      f.swap(rest); if(z.v.empty()) out = join(out, z.t[0]); else f.push_back(z);
   }
   return out;
}
template<class V> std::string show(const V& v) { std::ostringstream s; s << "("; for(size_t i = 0; i < v.size(); ++i) s << (i ? " " : "") << v[i]; s << ")"; return s.str(); }

template<class GM> void addExplicit(GM& gm, const RefModel& r, size_t i) {
   typedef opengm::ExplicitFunction<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType> E;
   const RefFactor& f = r.f[i];
   if(f.v.empty()) {
      std::vector<typename GM::LabelType> e; E x(e.begin(), e.end(), static_cast<typename GM::ValueType>(f.t[0]));
      gm.addFactor(gm.addFunction(x), e.begin(), e.end()); return;
   }
   std::vector<typename GM::LabelType> shape; for(int v : f.v) shape.push_back(r.L[v]);
   E x(shape.begin(), shape.end());
   std::vector<size_t> co(f.v.size(), 0);
   for(size_t k = 0; k < f.t.size(); ++k) {
      size_t q = k; for(size_t d = 0; d < f.v.size(); ++d) { co[d] = q % shape[d]; q /= shape[d]; }
      x(co.begin()) = f.t[k];
   }
   std::vector<typename GM::IndexType> vi(f.v.begin(), f.v.end());
   gm.addFactor(gm.addFunction(x), vi.begin(), vi.end());
}
template<class GM> void build(GM& gm, const RefModel& r) {
   std::vector<typename GM::LabelType> l(r.L.begin(), r.L.end());
   gm = GM(typename GM::SpaceType(l.begin(), l.end()));
   for(size_t i = 0; i < r.f.size(); ++i) addExplicit(gm, r, i);
}
// labels within range and complete?
template<class V> bool validLabeling(const RefModel& r, const V& lab) { if(lab.size() != r.L.size()) return false; for(size_t i = 0; i < lab.size(); ++i) if(!(lab[i] >= 0 && (long long)lab[i] < r.L[i])) return false; return true; }
template<class V> std::vector<int> toInt(const V& v) { return std::vector<int>(v.begin(), v.end()); }
#endif
