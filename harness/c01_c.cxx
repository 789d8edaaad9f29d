// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c01_construct.hxx"
#include <opengm/functions/constant.hxx>
typedef opengm::DiscreteSpace<size_t, size_t> Sp;
typedef opengm::ExplicitFunction<double> E; typedef opengm::PottsFunction<double> P; typedef opengm::SparseFunction<double, size_t, size_t> S;
typedef opengm::GraphicalModel<double, opengm::Adder, OPENGM_TYPELIST_3(E, P, S), Sp> GM;
typedef opengm::GraphicalModel<double, opengm::Adder, OPENGM_TYPELIST_2(P, E), Sp> GM2;     // cannot hold sparse functions
typedef opengm::GraphicalModel<double, opengm::Adder, E, Sp> GM1;

// a model with any mix of functions of three types, factors referring to them in any order
template<class M> void randomMix(Ctx& c, M& gm, Desc& d, int nf, int nfac, bool sparse, bool oneType = false) {
   d = Desc(); d.L = {2, 2, 2}; gm = M(Sp(d.L.begin(), d.L.end()));
}
MC_SCENARIO("explicit_storage_and_conversion") {
   GM gm; Desc d; d.L = {2, 2, 3}; gm = GM(Sp(d.L.begin(), d.L.end()));
   std::vector<GM::FunctionIdentifier> ids; std::vector<std::pair<int, int> > refs; int cnt[3] = {0, 0, 0};
   int nf = c.tier(4, 5);
   for(int i = 0; i < nf; ++i) {
      int t = c.choose(5); std::vector<int> sh; if(t == 3) sh = {2, 2, 3}; else if(t == 4) sh = {2, 3}; else sh = {2, 2};
      Fn f = t == 1 ? makePotts(2, 2, i) : t == 2 ? makeSparse(sh, i) : makeExplicit(sh, i);
      GM::FunctionIdentifier id = t == 1 ? gm.addFunction(toPotts<P>(f)) : t == 2 ? gm.addFunction(toSparse<S>(f, i)) : gm.addFunction(toExplicit<E>(f));
      d.fn[f.type].push_back(f); ids.push_back(id);
   }
   int order = c.choose(3);
   for(int i = 0; i < nf; ++i) {
      int k = order == 0 ? i : order == 1 ? nf - 1 - i : (i * 2) % nf; GM::FunctionIdentifier id = ids[k]; const Fn& f = d.fn[id.getFunctionType()][id.getFunctionIndex()];
      std::vector<int> v = f.shape.size() == 3 ? std::vector<int>{0, 1, 2} : f.shape[1] == 3 ? std::vector<int>{i % 2, 2} : std::vector<int>{0, 1};
      gm.addFactor(id, v.begin(), v.end()); d.fac.push_back(Fac{id.getFunctionType(), (int)id.getFunctionIndex(), v});
   }
   const int ti[3] = {0, 1, 2}; same(c, gm, d, ti, false); c.state(d.hash());
   { opengm::ExplicitStorage<GM> st(gm); for(size_t i = 0; i < d.fac.size(); ++i) { const double* p = st[gm[i]]; const Fn& f = d.fn[d.fac[i].type][d.fac[i].idx]; for(size_t k = 0; k < f.t.size(); ++k) c.eq(p[k], f.t[k], "explicit storage value"); } }
   { typedef opengm::ConvertToExplicit<GM> CV; CV::ExplicitGraphicalModelType ex; CV::convert(gm, ex);
     c.eq((size_t)ex.numberOfFactors(), d.fac.size(), "factors after conversion"); c.eq((size_t)ex.numberOfVariables(), d.L.size(), "variables after conversion");
     for(size_t i = 0; i < d.fac.size(); ++i) { c.eq((size_t)ex[i].numberOfVariables(), d.fac[i].v.size(), "factor order after conversion"); for(size_t k = 0; k < d.fac[i].v.size(); ++k) c.eq((int)ex[i].variableIndex(k), d.fac[i].v[k], "factor variable after conversion");
        const Fn& f = d.fn[d.fac[i].type][d.fac[i].idx]; std::vector<size_t> co(f.shape.size()); for(size_t q = 0; q < f.t.size(); ++q) { size_t r = q; for(size_t k = 0; k < co.size(); ++k) { co[k] = r % f.shape[k]; r /= f.shape[k]; } c.eq(ex[i](co.begin()), f.t[q], "factor value after conversion"); } } }
   // identifiers as keys of ordered containers
   std::map<GM::FunctionIdentifier, int> m; for(int i = 0; i < nf; ++i) m[ids[i]] = i; c.eq(m.size(), (size_t)nf, "identifiers kept as distinct map keys"); for(int i = 0; i < nf; ++i) c.eq(m[ids[i]], i, "identifier found in map");
   for(int i = 0; i < nf; ++i) for(int j = 0; j < nf; ++j) { c.eq(ids[i] == ids[j], i == j, "identifier equality"); c.eq((int)(ids[i] < ids[j]) + (int)(ids[j] < ids[i]) + (int)(ids[i] == ids[j]), 1, "identifier ordering is not total"); c.eq(ids[i] <= ids[j], !(ids[j] < ids[i]), "<="); c.eq(ids[i] >= ids[j], !(ids[i] < ids[j]), ">="); c.eq(ids[i] > ids[j], ids[j] < ids[i], ">"); }
}
// assignment between models with different lists of function types, over models that already hold something
template<class M> void fill(Ctx& c, M& gm, Desc& d, int kind) {
   typedef typename M::FunctionIdentifier Fid; d = Desc(); d.L = kind % 2 ? std::vector<int>{2, 3} : std::vector<int>{3, 2, 2}; gm = M(Sp(d.L.begin(), d.L.end()));
   if(kind == 0) { d = Desc(); gm = M(); return; }
}
template<class M> void addE(Ctx& c, M& gm, Desc& d, int n) { for(int i = 0; i < n; ++i) { int v = i % d.L.size(); Fn f = makeExplicit({d.L[v]}, i); typename M::FunctionIdentifier id = gm.addFunction(toExplicit<E>(f)); d.fn[0].push_back(f); gm.addFactor(id, &v, &v + 1); d.fac.push_back(Fac{0, (int)id.getFunctionIndex(), {v}}); } }
template<class M> void addP(Ctx& c, M& gm, Desc& d, int n) { for(int i = 0; i < n; ++i) { int v[2] = {0, (int)d.L.size() - 1}; Fn f = makePotts(d.L[v[0]], d.L[v[1]], i); typename M::FunctionIdentifier id = gm.addFunction(toPotts<P>(f)); d.fn[1].push_back(f); gm.addFactor(id, v, v + 2); d.fac.push_back(Fac{1, (int)id.getFunctionIndex(), {v[0], v[1]}}); } }
template<class M> void addS(Ctx& c, M& gm, Desc& d, int n) { for(int i = 0; i < n; ++i) { int v = (int)d.L.size() - 1; Fn f = makeSparse({d.L[v]}, i); typename M::FunctionIdentifier id = gm.addFunction(toSparse<S>(f, i)); d.fn[2].push_back(f); gm.addFactor(id, &v, &v + 1); d.fac.push_back(Fac{2, (int)id.getFunctionIndex(), {v}}); } }
MC_SCENARIO("assign_other_type_list") {
   const int t3[3] = {0, 1, 2}, t2[3] = {1, 0, -1}, t1[3] = {0, -1, -1};
   GM a; GM2 b; GM1 e; Desc ra, rb, re;
   fill(c, a, ra, c.choose(3)); fill(c, b, rb, c.choose(3)); fill(c, e, re, c.choose(3));
   if(!ra.L.empty()) { int m = c.choose(2), o = c.choose(2); for(int k = 0; k < 2; ++k) { if(k == o) addE(c, a, ra, m + 1); else addP(c, a, ra, m); } addS(c, a, ra, c.choose(3)); }
   if(!rb.L.empty()) { if(c.flip()) { addE(c, b, rb, 2); addP(c, b, rb, 1); } else { addP(c, b, rb, 2); addE(c, b, rb, c.choose(2)); } }
   if(!re.L.empty()) addE(c, e, re, c.choose(4));
   for(int k = 0; k < c.tier(2, 3); ++k) {
      int op = c.choose(6); MC_TRACE(c, "assign " << op);
      switch(op) {
         case 0: a = b; ra = rb; break;
         case 1: a = e; ra = re; break;
         case 2: b = e; rb = re; break;
         case 3: case 4: case 5: {
            // into a list that lacks some types: allowed exactly when the source holds no function of those types
            bool ok = op == 3 ? ra.fn[2].empty() : op == 4 ? ra.fn[2].empty() && ra.fn[1].empty() : rb.fn[1].empty(); bool thrown = false;
            GM2 b2(b); GM1 e2(e);
            try { if(op == 3) b2 = a; else if(op == 4) e2 = a; else e2 = b; } catch(std::runtime_error&) { thrown = true; }
            c.eq(thrown, !ok, "assignment of unsupported functions is not rejected (or a supported one is)");
            if(!ok) break;
            if(op == 3) { b = b2; rb = ra; } else { e = e2; re = op == 4 ? ra : rb; }
         }
      }
      same(c, a, ra, t3, false); same(c, b, rb, t2, false); same(c, e, re, t1, false); c.state(mc::mix(mc::mix(ra.hash(), rb.hash()), re.hash()));
   }
}
