// C01: every construction history up to a depth, against a plain description of what was added.
#include "gm.hxx"
#include <opengm/functions/potts.hxx>
#include <opengm/functions/sparsemarray.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/graphicalmodel/graphicalmodel_explicit_storage.hxx>
#include <map>
using mc::Ctx;

struct Fn { int type; std::vector<int> shape; std::vector<double> t; double alt = 0; bool operator==(const Fn& o) const { return type == o.type && shape == o.shape && t == o.t && alt == o.alt; } };
struct Fac { int type, idx; std::vector<int> v; };
struct Desc {
   std::vector<int> L; std::vector<Fn> fn[3]; std::vector<Fac> fac; bool dirty = false; int maxOrder = 0;
   bool operator==(const Desc& o) const { if(L != o.L || fac.size() != o.fac.size()) return false; return true; }
   double value(const Fac& f, const std::vector<int>& lab) const {
      const Fn& g = fn[f.type][f.idx]; size_t k = 0, s = 1; for(size_t i = 0; i < f.v.size(); ++i) { k += s * lab[f.v[i]]; s *= g.shape[i]; } return g.t[k];
   }
   uint64_t hash() const { uint64_t h = dirty; for(int l : L) h = mc::mix(h, l); for(const Fac& f : fac) { h = mc::mix(h, f.type * 100 + f.idx); for(int v : f.v) h = mc::mix(h, v); for(double t : fn[f.type][f.idx].t) h = mc::mix(h, mc::bitsOf(t)); } for(int k = 0; k < 3; ++k) h = mc::mix(h, fn[k].size()); return h; }
};
inline size_t prod(const std::vector<int>& s) { size_t n = 1; for(int x : s) n *= x; return n; }
// function table with values that identify the function, its shape and the position
inline Fn makeExplicit(const std::vector<int>& shape, int k) { Fn f; f.type = 0; f.shape = shape; for(size_t i = 0; i < prod(shape); ++i) f.t.push_back(1 + k * 2 + (double)i * (i % 2 ? 1 : -1)); return f; }
inline Fn makePotts(int a, int b, int k) { Fn f; f.type = 1; f.shape = {a, b}; f.alt = 3 + k; for(int j = 0; j < b; ++j) for(int i = 0; i < a; ++i) f.t.push_back(i == j ? 0.5 : 3 + k); return f; }
inline Fn makeSparse(const std::vector<int>& shape, int k) { Fn f; f.type = 2; f.shape = shape; f.t.assign(prod(shape), 2 + k); f.t.back() = -1 - k; f.t[0] = 7; return f; }

template<class E> E toExplicit(const Fn& f) {
   if(f.shape.empty()) { std::vector<size_t> e; return E(e.begin(), e.end(), f.t[0]); }
   E x(f.shape.begin(), f.shape.end()); std::vector<size_t> co(f.shape.size());
   for(size_t k = 0; k < f.t.size(); ++k) { size_t q = k; for(size_t d = 0; d < co.size(); ++d) { co[d] = q % f.shape[d]; q /= f.shape[d]; } x(co.begin()) = f.t[k]; }
   return x;
}
template<class P> P toPotts(const Fn& f) { return P(f.shape[0], f.shape[1], f.t[0], f.alt); }
template<class S> S toSparse(const Fn& f, int k) {
   S s(f.shape.begin(), f.shape.end(), 2 + k); std::vector<size_t> co(f.shape.size(), 0); s.insert(co.begin(), 7); bool same0 = f.t.size() == 1;
   for(size_t d = 0; d < co.size(); ++d) co[d] = f.shape[d] - 1; if(!same0) s.insert(co.begin(), -1 - k); return s;
}

template<class GM> struct Types {
   typedef typename GM::ValueType T; typedef typename GM::IndexType I; typedef typename GM::LabelType L;
   typedef opengm::ExplicitFunction<T, I, L> E; typedef opengm::PottsFunction<T, I, L> P; typedef opengm::SparseFunction<T, I, L> S;
};

template<class GM> void same(Ctx& c, const GM& gm, const Desc& r, const int* typeIdx, bool mult) {
   c.eq((size_t)gm.numberOfVariables(), r.L.size(), "numberOfVariables");
   c.eq((size_t)gm.space().numberOfVariables(), r.L.size(), "space().numberOfVariables");
   int mx = 0; for(size_t i = 0; i < r.L.size(); ++i) { c.eq((int)gm.numberOfLabels(i), r.L[i], "numberOfLabels"); mx = std::max(mx, r.L[i]); }
   c.eq((int)gm.maxNumberOfLabels(), mx, "maxNumberOfLabels");
   c.eq((size_t)gm.numberOfFactors(), r.fac.size(), "numberOfFactors");
   for(int k = 0; k < 3; ++k) if(typeIdx[k] >= 0) c.eq((size_t)gm.numberOfFunctions(typeIdx[k]), r.fn[k].size(), "numberOfFunctions");
   size_t order = 0;
   for(size_t i = 0; i < r.fac.size(); ++i) {
      const Fac& f = r.fac[i]; const typename GM::FactorType& g = gm[i];
      c.eq((size_t)g.numberOfVariables(), f.v.size(), "factor order"); c.eq((size_t)gm.numberOfVariables(i), f.v.size(), "numberOfVariables(factor)");
      order = std::max(order, f.v.size());
      c.eq((int)g.functionType(), typeIdx[f.type], "function type of factor"); c.eq((int)g.functionIndex(), f.idx, "function index of factor");
      size_t sz = 1;
      for(size_t k = 0; k < f.v.size(); ++k) {
         c.eq((int)g.variableIndex(k), f.v[k], "variable of factor"); c.eq((int)gm.variableOfFactor(i, k), f.v[k], "variableOfFactor");
         c.eq((int)g.numberOfLabels(k), r.L[f.v[k]], "labels of factor"); c.eq((int)g.shape(k), r.L[f.v[k]], "shape of factor"); sz *= r.L[f.v[k]];
      }
      c.eq((size_t)g.size(), sz, "factor size");
      c.check(std::equal(f.v.begin(), f.v.end(), g.variableIndicesBegin()) && size_t(g.variableIndicesEnd() - g.variableIndicesBegin()) == f.v.size(), "variable index range of factor");
   }
   c.eq(gm.factorOrder(), order, "factorOrder");
   if(!r.dirty) for(size_t v = 0; v < r.L.size(); ++v) {
      std::vector<int> a; for(size_t i = 0; i < r.fac.size(); ++i) if(std::count(r.fac[i].v.begin(), r.fac[i].v.end(), (int)v)) a.push_back((int)i);
      c.eq((size_t)gm.numberOfFactors(v), a.size(), "numberOfFactors(variable)");
      for(size_t k = 0; k < a.size(); ++k) c.eq((int)gm.factorOfVariable(v, k), a[k], "factorOfVariable");
   }
   std::vector<int> lab(r.L.size(), 0); std::vector<size_t> sub;
   for(;;) {
      double e = mult ? 1 : 0;
      for(size_t i = 0; i < r.fac.size(); ++i) {
         double x = r.value(r.fac[i], lab); if(mult) e *= x; else e += x;
         sub.assign(r.fac[i].v.size() + 1, 0); for(size_t k = 0; k < r.fac[i].v.size(); ++k) sub[k] = lab[r.fac[i].v[k]];
         c.eq((double)gm[i](sub.begin()), x, "factor value");
      }
      lab.push_back(0); c.eq((double)gm.evaluate(lab.begin()), e, "evaluate"); lab.pop_back();
      size_t i = 0; for(; i < lab.size(); ++i) { if(++lab[i] < r.L[i]) break; lab[i] = 0; }
      if(i == lab.size()) break;
   }
}

template<class GM, class GM2> struct World {
   typedef typename Types<GM>::E E; typedef typename Types<GM>::P P; typedef typename Types<GM>::S S;
   typedef typename GM::FunctionIdentifier Fid;
   GM a, b; GM2 x; Desc ra, rb, rx; bool mult;
   // the variable subsets offered: order 0..3
   static std::vector<std::vector<int> > subsets(int n) { std::vector<std::vector<int> > s; for(int m = 0; m < (1 << n); ++m) { std::vector<int> v; for(int i = 0; i < n; ++i) if(m >> i & 1) v.push_back(i); if(v.size() <= 3) s.push_back(v); } return s; }
   void addFac(Ctx& c, const Fid& id, int type, const std::vector<int>& v, bool final) {
      std::vector<typename GM::IndexType> vi(v.begin(), v.end()); size_t k;
      if(final) k = a.addFactor(id, vi.begin(), vi.end()); else k = a.addFactorNonFinalized(id, vi.begin(), vi.end());
      c.eq(k, ra.fac.size(), "index returned by addFactor");
      ra.fac.push_back(Fac{type, (int)id.getFunctionIndex(), v}); if(!final) ra.dirty = true;
   }
   void setSpace(const std::vector<int>& L) { a = GM(typename GM::SpaceType(L.begin(), L.end())); ra = Desc(); ra.L = L; }
   std::vector<int> shapeOf(const std::vector<int>& v) { std::vector<int> s; for(int i : v) s.push_back(ra.L[i]); return s; }
   void op(Ctx& c, int nOps) {
      int o = c.choose(nOps); MC_TRACE(c, "op " << o);
      switch(o) {
         case 0: case 1: { // addFunction / addFactor, explicit, possibly non-finalized
            std::vector<std::vector<int> > s = subsets((int)ra.L.size()); std::vector<int> v = c.pick(s);
            int k = c.choose(2); Fn f = makeExplicit(shapeOf(v), k); MC_TRACE(c, " explicit " << k << " on " << show(v));
            Fid id;
            if(k == 0) id = a.addFunction(toExplicit<E>(f));
            else { std::pair<Fid, E&> pr = a.addFunctionWithRefReturn(toExplicit<E>(f)); id = pr.first; c.eq((size_t)pr.second.size(), f.t.size(), "returned reference"); if(v.size() == 1) { size_t z = 0; pr.second(&z) = 77; f.t[0] = 77; } }
            c.eq((int)id.getFunctionIndex(), (int)ra.fn[0].size(), "function index"); ra.fn[0].push_back(f);
            addFac(c, id, 0, v, o == 0); break; }
         case 2: { // shared Potts
            std::vector<std::vector<int> > s; for(auto& v : subsets((int)ra.L.size())) if(v.size() == 2) s.push_back(v); std::vector<int> v = c.pick(s);
            int k = c.choose(2); Fn f = makePotts(ra.L[v[0]], ra.L[v[1]], k); MC_TRACE(c, " shared potts " << k << " on " << show(v));
            Fid id = a.addSharedFunction(toPotts<P>(f));
            int want = -1; for(size_t i = 0; i < ra.fn[1].size(); ++i) if(ra.fn[1][i] == f) { want = (int)i; break; }
            if(want < 0) { want = (int)ra.fn[1].size(); ra.fn[1].push_back(f); }
            c.eq((int)id.getFunctionIndex(), want, "index of shared function"); addFac(c, id, 1, v, true); break; }
         case 3: { // shared explicit / sparse of order 1 or 2
            std::vector<std::vector<int> > s; for(auto& v : subsets((int)ra.L.size())) if(v.size() == 1 || v.size() == 2) s.push_back(v); std::vector<int> v = c.pick(s);
            int k = c.choose(2), which = c.choose(2);
            Fn f = which ? makeSparse(shapeOf(v), k) : makeExplicit(shapeOf(v), k); MC_TRACE(c, " shared " << (which ? "sparse " : "explicit ") << k << " on " << show(v));
            Fid id = which ? a.addSharedFunction(toSparse<S>(f, k)) : a.addSharedFunction(toExplicit<E>(f));
            int want = -1; for(size_t i = 0; i < ra.fn[f.type].size(); ++i) if(ra.fn[f.type][i] == f) { want = (int)i; break; }
            if(want < 0) { want = (int)ra.fn[f.type].size(); ra.fn[f.type].push_back(f); }
            c.eq((int)id.getFunctionIndex(), want, "index of shared function"); addFac(c, id, f.type, v, true); break; }
         case 4: b = a; rb = ra; break;
         case 5: a = b; ra = rb; break;
         case 6: { GM t(a); std::swap(ra, rb); GM u(b); a = u; b = t; break; }
         case 7: { // change a stored function in place
            std::vector<int> ty; for(int k = 0; k < 2; ++k) if(!ra.fn[k].empty()) ty.push_back(k); int k = c.pick(ty); int i = c.choose((int)ra.fn[k].size());
            Fid id(i, k); Fn& f = ra.fn[k][i];
            if(k == 0) { E& e = a.template getFunction<E>(id); if(f.shape.empty()) { size_t z = 0; e(&z) = 9; f.t[0] = 9; } else { std::vector<size_t> co(f.shape.size(), 0); co.back() = f.shape.back() - 1; e(co.begin()) = 9; size_t st = 1; for(size_t d = 0; d + 1 < f.shape.size(); ++d) st *= f.shape[d]; f.t[st * (f.shape.back() - 1)] = 9; } }
            else { P& p = a.template getFunction<P>(id); p.parameter(1) = 8; f.alt = 8; for(int y = 0, q = 0; y < f.shape[1]; ++y) for(int z = 0; z < f.shape[0]; ++z, ++q) if(y != z) f.t[q] = 8; }
            MC_TRACE(c, " change function " << k << ":" << i); break; }
         case 8: { // reuse a stored function for another factor of the same shape
            std::vector<Fac> opt; for(int k = 0; k < 3; ++k) for(size_t i = 0; i < ra.fn[k].size(); ++i) for(auto& v : subsets((int)ra.L.size())) if(shapeOf(v) == ra.fn[k][i].shape && v.size() == ra.fn[k][i].shape.size()) opt.push_back(Fac{k, (int)i, v});
            Fac f = c.pick(opt); MC_TRACE(c, " reuse " << f.type << ":" << f.idx << " on " << show(f.v)); addFac(c, Fid(f.idx, f.type), f.type, f.v, c.flip()); break; }
         case 9: { if(ra.L.size() >= 3) c.prune(); int l = c.range(1, 3); size_t k = a.addVariable(l); c.eq(k, ra.L.size(), "index returned by addVariable"); ra.L.push_back(l); MC_TRACE(c, " variable with " << l); break; }
         case 10: a.finalize(); ra.dirty = false; break;
         case 11: { std::vector<int> L; if(c.flip()) { L.push_back(3); L.push_back(2); } typename GM::SpaceType s(L.begin(), L.end()); a.assign(s); ra = Desc(); ra.L = L; break; }
         case 12: x = a; rx = ra; break;              // other list of function types
         case 13: a = x; ra = rx; break;
         case 14: { GM t(a); a = t; const GM& self = a; a = self; a.reserveFactors(50); a.template reserveFunctions<E>(7); a.reserveFactorsVarialbeIndices(64); break; }
      }
   }
};
template<class GM, class GM2> void scenario(Ctx& c, bool mult, int depth, int inits) {
   World<GM, GM2> w; w.mult = mult;
   const int ti[3] = {0, 1, 2}, tx[3] = {2, 0, 1};
   switch(c.choose(inits)) {
      case 0: w.setSpace({2, 3}); break;
      case 1: w.setSpace({2, 1, 3}); { Fn f = makeExplicit({2, 3}, 0); w.ra.fn[0].push_back(f); w.addFac(c, w.a.addFunction(toExplicit<typename Types<GM>::E>(f)), 0, {0, 2}, true); Fn p = makePotts(2, 1, 0); w.ra.fn[1].push_back(p); w.addFac(c, w.a.addFunction(toPotts<typename Types<GM>::P>(p)), 1, {0, 1}, true);
         std::vector<int> s1(1, 3); Fn sp = makeSparse(s1, 0); w.ra.fn[2].push_back(sp); w.addFac(c, w.a.addFunction(toSparse<typename Types<GM>::S>(sp, 0)), 2, {2}, true); w.b = w.a; w.rb = w.ra; w.x = w.a; w.rx = w.ra; w.a.addVariable(2); w.ra.L.push_back(2); } break;
      case 2: break;
      case 3: w.setSpace({2, 2, 2}); w.b = GM(typename GM::SpaceType(w.ra.L.begin(), w.ra.L.begin() + 1), 4); w.rb.L.assign(1, 2); break;
   }
   for(int d = 0; d < depth; ++d) {
      w.op(c, 15);
      same(c, w.a, w.ra, ti, mult); same(c, w.b, w.rb, ti, mult); same(c, w.x, w.rx, tx, mult);
      c.state(mc::mix(mc::mix(w.ra.hash(), w.rb.hash()), w.rx.hash()));
   }
   // ending: the copies are independent of the original; explicit storage and conversion agree with the model
   { GM t(w.a); GM u; u = t; Desc r = w.ra; t = GM(); same(c, u, r, ti, mult); same(c, w.a, w.ra, ti, mult); }
}
