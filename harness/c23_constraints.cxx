// FLAGS:
// C23: constraints, constraint functions and their costs against direct evaluation of the logic.
#include "gm.hxx"
#include <opengm/datastructures/linear_constraint.hxx>
#include <opengm/functions/constraint_functions/linear_constraint_function.hxx>
#include <opengm/functions/constraint_functions/label_order_function.hxx>
#include <opengm/functions/constraint_functions/num_labels_limitation_function.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
#include <opengm/inference/auxiliary/lp_functiontransfer.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
using mc::Ctx;
typedef std::vector<size_t> V; typedef opengm::LinearConstraint<double> LC; typedef LC::IndicatorVariableType IV; typedef std::pair<size_t, size_t> Lit; typedef std::vector<Lit> Lits;
enum { AND, OR, NOT };
static const IV::LogicalOperatorType OPS[3] = {IV::And, IV::Or, IV::Not};
static const LC::LinearConstraintOperatorValueType CMP[3] = {opengm::LinearConstraintTraits::LinearConstraintOperator::LessEqual, opengm::LinearConstraintTraits::LinearConstraintOperator::Equal, opengm::LinearConstraintTraits::LinearConstraintOperator::GreaterEqual};
// ---- reference ------------------------------------------------------------------------------------
struct RIV { int op; Lits l; };
static bool holds(const RIV& r, const V& x) { if(r.op == AND) { for(auto& p : r.l) if(x[p.first] != p.second) return false; return true; } bool any = false; for(auto& p : r.l) any = any || x[p.first] == p.second; return r.op == OR ? any : !any; }
struct RLC { std::vector<RIV> v; std::vector<double> c; double bound; int cmp; };
static double excess(double d, int cmp) { return cmp == 0 ? std::max(d, 0.0) : cmp == 1 ? std::fabs(d) : std::max(-d, 0.0); }
static double violation(const RLC& r, const V& x) { double s = -r.bound; for(size_t i = 0; i < r.v.size(); ++i) if(holds(r.v[i], x)) s += r.c[i]; return excess(s, r.cmp); }
static Lits sorted(Lits l) { std::sort(l.begin(), l.end()); return l; }
static RIV read(const IV& i) { RIV r; r.op = i.getLogicalOperatorType() == IV::And ? AND : i.getLogicalOperatorType() == IV::Or ? OR : NOT; r.l.assign(i.begin(), i.end()); std::sort(r.l.begin(), r.l.end()); return r; }
static RLC read(const LC& k) { RLC r; for(auto i = k.indicatorVariablesBegin(); i != k.indicatorVariablesEnd(); ++i) r.v.push_back(read(*i)); for(auto i = k.coefficientsBegin(); i != k.coefficientsEnd(); ++i) r.c.push_back(*i); r.bound = k.getBound(); r.cmp = k.getConstraintOperator() == CMP[0] ? 0 : k.getConstraintOperator() == CMP[1] ? 1 : 2; return r; }
static bool same(const RIV& a, const RIV& b) { return a.op == b.op && sorted(a.l) == sorted(b.l); }
static std::string str(const RIV& r) { std::ostringstream s; s << (r.op == AND ? "and{" : r.op == OR ? "or{" : "not{"); for(auto& p : r.l) s << p.first << ":" << p.second << " "; s << "}"; return s.str(); }
static std::string str(const RLC& r) { std::ostringstream s; for(size_t i = 0; i < r.v.size(); ++i) s << (i ? " + " : "") << r.c[i] << "*" << str(r.v[i]); s << (r.cmp == 0 ? " <= " : r.cmp == 1 ? " == " : " >= ") << r.bound; return s.str(); }
template<class F> static void labelings(const V& shape, F f) { V x(shape.size(), 0); while(true) { f(x); size_t i = 0; for(; i < shape.size(); ++i) { if(++x[i] < shape[i]) break; x[i] = 0; } if(i == shape.size()) return; } }
static mc::u64 hashOf(const RIV& r) { mc::u64 h = r.op; for(auto& p : sorted(r.l)) h = mc::mix(mc::mix(h, p.first), p.second); return h; }
static mc::u64 hashOf(const RLC& r) { mc::u64 h = mc::mix(r.cmp, mc::bitsOf(r.bound)); for(size_t i = 0; i < r.v.size(); ++i) h = mc::mix(mc::mix(h, hashOf(r.v[i])), mc::bitsOf(r.c[i])); return h; }
// ---- indicator variables ----------------------------------------------------------------------------
static Lit pickLit(Ctx& c, int nv, int nl) { return Lit(c.choose(nv), c.choose(nl)); }
static void sameIV(Ctx& c, const IV& i, const RIV& r, const V& shape) {
   c.check(same(read(i), r), "an indicator variable holds exactly the literals it was given"); c.eq((size_t)std::distance(i.begin(), i.end()), r.l.size(), "number of literals");
   labelings(shape, [&](const V& x) { c.eq(i(x.begin()), holds(r, x), "an indicator variable is true exactly where its formula is"); });
}
MC_SCENARIO("indicator variables: construction and edits") {
   const V shape = {2, 2, 3}; RIV r; r.op = AND; IV i; int depth = c.tier(2, 3);
   switch(c.choose(5)) {
      case 0: break;
      case 1: { r.op = c.choose(3); Lit p = pickLit(c, 3, 2); r.l.push_back(p); i = IV(p.first, p.second, OPS[r.op]); break; }
      case 2: { r.op = c.choose(3); Lit p = pickLit(c, 3, 2); r.l.push_back(p); i = IV(p, OPS[r.op]); break; }
      case 3: { r.op = c.choose(3); int n = c.choose(3); for(int k = 0; k < n; ++k) r.l.push_back(pickLit(c, 2, 2)); i = IV(r.l, OPS[r.op]); break; }
      case 4: { r.op = c.choose(3); int n = c.choose(3); for(int k = 0; k < n; ++k) r.l.push_back(pickLit(c, 2, 2)); i = IV(r.l.begin(), r.l.end(), OPS[r.op]); break; }
   }
   sameIV(c, i, r, shape);
   for(int d = 0; d < depth; ++d) {
      int o = c.choose(7); if(o == 6) break; IV before = i; RIV rb = r;
      switch(o) {
         case 0: { Lit p = pickLit(c, 2, 2); i.add(p.first, p.second); r.l.push_back(p); break; }
         case 1: { Lit p = Lit(2, c.choose(3)); i.add(p); r.l.push_back(p); break; }
         case 2: { Lits l; l.push_back(Lit(1, 1)); l.push_back(pickLit(c, 2, 2)); i.add(l); r.l.insert(r.l.end(), l.begin(), l.end()); break; }
         case 3: { Lits l; l.push_back(Lit(1, 0)); l.push_back(pickLit(c, 2, 2)); i.add(l.begin(), l.end()); r.l.insert(r.l.end(), l.begin(), l.end()); break; }
         case 4: { r.op = c.choose(3); i.setLogicalOperatorType(OPS[r.op]); break; }
         case 5: { i.reserve(7); IV copy(i); i = IV(); i = copy; break; }
      }
      sameIV(c, i, r, shape); sameIV(c, before, rb, shape); c.eq(i == before, same(r, rb), "equal exactly when the literals and the operator agree"); c.eq(i != before, !same(r, rb), "unequal exactly when they differ"); c.state(hashOf(r));
   }
}
static std::vector<RIV> universe(int nv, int nl, int maxLits, bool ops) {
   std::vector<Lit> all; for(int v = 0; v < nv; ++v) for(int l = 0; l < nl; ++l) all.push_back(Lit(v, l)); std::vector<RIV> u;
   for(int m = 0; m < (1 << all.size()); ++m) { if(__builtin_popcount(m) > maxLits) continue; for(int o = 0; o < (ops ? 3 : 1); ++o) { RIV r; r.op = ops ? o : OR; for(size_t k = 0; k < all.size(); ++k) if(m >> k & 1) r.l.push_back(all[k]); u.push_back(r); } }
   return u;
}
static IV make(const RIV& r, bool backwards) { Lits l = r.l; if(backwards) std::reverse(l.begin(), l.end()); return IV(l.begin(), l.end(), OPS[r.op]); }
MC_SCENARIO("indicator variables: comparisons order their literal sets") {
   static const std::vector<RIV> many = universe(3, 2, 3, false), ops = universe(2, 2, 2, true), few = universe(3, 2, 2, false);
   const std::vector<RIV>& u = c.flip() ? ops : c.thorough ? many : few;
   const RIV& a = u[c.choose((int)u.size())]; const RIV& b = u[c.choose((int)u.size())]; IV x = make(a, false), y = make(b, true);
   MC_TRACE(c, "a=" << str(a) << " b=" << str(b)); bool eq = same(a, b);
   c.eq(x == y, eq, "=="); c.eq(x != y, !eq, "!="); c.eq((x < y) + (y < x) + (x == y), 1, "exactly one of <, > and == holds"); c.eq(x > y, y < x, "> is < with the sides exchanged");
   c.eq(x <= y, x < y || x == y, "<= is < or =="); c.eq(x >= y, x > y || x == y, ">= is > or =="); c.state(mc::mix(hashOf(a), hashOf(b)));
   if(x < y) for(const RIV& r : u) { IV z = make(r, false); if(y < z) { MC_TRACE(c, "c=" << str(r)); c.check(x < z, "< is transitive"); } }
}
// ---- linear constraints -------------------------------------------------------------------------------
static const double COEF[] = {1, -1, 0.5, 2}, BOUND[] = {0, 1, -1, 0.5};
static void sameLC(Ctx& c, const LC& k, const RLC& r, const V& shape) {
   RLC g = read(k); c.eq(g.v.size(), r.v.size(), "number of terms"); c.eq(g.c.size(), r.c.size(), "number of coefficients"); for(size_t i = 0; i < r.v.size(); ++i) { c.check(same(g.v[i], r.v[i]), "the terms are the ones added, in order"); c.eq(g.c[i], r.c[i], "coefficient"); } c.eq(g.bound, r.bound, "bound"); c.eq(g.cmp, r.cmp, "comparison operator");
   labelings(shape, [&](const V& x) { c.eq(k(x.begin()), violation(r, x), "the value of a linear constraint is the amount of its violation"); });
}
static const std::vector<RIV>& pool() { static std::vector<RIV> p = {{AND, {{0, 0}}}, {AND, {{0, 1}, {1, 0}}}, {OR, {{0, 1}, {1, 1}}}, {NOT, {{0, 0}, {2, 1}}}, {AND, {{1, 1}}}, {OR, {{2, 2}, {0, 0}}}, {AND, {{2, 1}}}, {NOT, {{1, 0}}}, {AND, {{0, 1}, {2, 0}}}, {AND, {{1, 0}, {1, 1}}}}; return p; }
static IV pickIV(Ctx& c, RLC& r, int n) { const RIV& v = pool()[c.choose(n)]; r.v.push_back(v); return make(v, c.ans.size() % 2); }
MC_SCENARIO("linear constraints: construction and edits") {
   const V shape = {2, 2, 3}; RLC r; r.bound = 0; r.cmp = 0; LC k; int n = c.tier(4, 5);
   if(int how = c.choose(3)) {
      int t = c.choose(3); std::vector<IV> iv; for(int i = 0; i < t; ++i) { iv.push_back(pickIV(c, r, n)); r.c.push_back(COEF[(i * 2 + t) % 4]); } bool dflt = c.flip(); if(!dflt) { r.bound = c.pick(BOUND); r.cmp = c.choose(3); }
      if(how == 1) k = dflt ? LC(iv, r.c) : LC(iv, r.c, r.bound, CMP[r.cmp]); else k = dflt ? LC(iv.begin(), iv.end(), r.c.begin()) : LC(iv.begin(), iv.end(), r.c.begin(), r.bound, CMP[r.cmp]);
   }
   sameLC(c, k, r, shape);
   for(int d = 0, depth = c.tier(2, 2); d < depth; ++d) {
      int o = c.choose(8); if(o == 7) break; LC before(k); RLC rb = r;
      switch(o) {
         case 0: { IV i = pickIV(c, r, n); double q = COEF[c.choose(c.tier(2, 4))]; k.add(i, q); r.c.push_back(q); break; }
         case 1: { std::vector<IV> iv; std::vector<double> q = {-1, 0.5}; for(int i = 0; i < 2; ++i) iv.push_back(pickIV(c, r, 3)); k.add(iv, q); r.c.insert(r.c.end(), q.begin(), q.end()); break; }
         case 2: { std::vector<IV> iv; std::vector<double> q = {2, 1, 7}; for(int i = 0; i < 2; ++i) iv.push_back(pickIV(c, r, 3)); k.add(iv.begin(), iv.end(), q.begin()); r.c.push_back(2); r.c.push_back(1); break; }
         case 3: r.bound = c.pick(BOUND); k.setBound(r.bound); break;
         case 4: r.cmp = c.choose(3); k.setConstraintOperator(CMP[r.cmp]); break;
         case 5: k.reserve(5); break;
         case 6: { LC o2(k); k = LC(); k = o2; break; }
      }
      sameLC(c, k, r, shape); sameLC(c, before, rb, shape); c.state(hashOf(r));
   }
}
// ---- violated constraints of any linear constraint function ---------------------------------------------
template<class F> static void challengeAt(Ctx& c, const F& f, const std::vector<RLC>& cons, const V& x, double tol, bool dflt) {
   typename F::ViolatedLinearConstraintsIteratorType b, e; typename F::ViolatedLinearConstraintsWeightsIteratorType w; if(dflt) f.challenge(b, e, w, x.begin()); else f.challenge(b, e, w, x.begin(), tol);
   std::map<size_t, double> want, got; for(size_t k = 0; k < cons.size(); ++k) { double v = violation(cons[k], x); if(v > tol) want[k] = v; }
   for(; b != e; ++b, ++w) { size_t k = &*b - &*f.linearConstraintsBegin(); c.check(k < cons.size(), "a reported constraint is one of the function's"); c.check(!got.count(k), "a constraint is reported once"); got[k] = *w; }
   c.check(got == want, "exactly the violated constraints are reported with the amount of their violation");
}
template<class F> static void relaxedAt(Ctx& c, const F& f, const std::vector<RLC>& cons, const std::vector<RIV>& order, const std::vector<double>& y, double tol, bool dflt) {
   typename F::ViolatedLinearConstraintsIteratorType b, e; typename F::ViolatedLinearConstraintsWeightsIteratorType w; if(dflt) f.challengeRelaxed(b, e, w, y.begin()); else f.challengeRelaxed(b, e, w, y.begin(), tol);
   std::map<size_t, double> want, got;
   for(size_t k = 0; k < cons.size(); ++k) { double s = -cons[k].bound; for(size_t i = 0; i < cons[k].v.size(); ++i) { size_t p = 0; while(p < order.size() && !same(order[p], cons[k].v[i])) ++p; c.check(p < order.size(), "every indicator variable of a constraint is in the order list"); s += cons[k].c[i] * y[p]; } double v = excess(s, cons[k].cmp); if(v > tol) want[k] = v; }
   for(; b != e; ++b, ++w) { size_t k = &*b - &*f.linearConstraintsBegin(); c.check(k < cons.size(), "a reported constraint is one of the function's"); c.check(!got.count(k), "a constraint is reported once"); got[k] = *w; }
   c.check(got == want, "exactly the constraints violated by a fractional point are reported with the amount of their violation");
}
// value, constraint list and violated constraints of a function at every labeling and at every point of a grid
template<class F, class VALID> static void checkFunction(Ctx& c, const F& f, const V& shape, const std::vector<RLC>* given, VALID valid, double rv, double ri, int grid) {
   c.eq(f.dimension(), shape.size(), "dimension"); size_t sz = 1; for(size_t i = 0; i < shape.size(); ++i) { c.eq(f.shape(i), shape[i], "shape"); sz *= shape[i]; } c.eq(f.size(), sz, "size"); c.check(f.isLinearConstraint(), "a constraint function says so");
   c.eq(f.min(), std::min(rv, ri), "min is the smaller of the two values"); c.eq(f.max(), std::max(rv, ri), "max is the larger of the two values"); c.eq(f.minMax().min(), std::min(rv, ri), "minMax"); c.eq(f.minMax().max(), std::max(rv, ri), "minMax");
   std::vector<RLC> cons; for(auto i = f.linearConstraintsBegin(); i != f.linearConstraintsEnd(); ++i) cons.push_back(read(*i)); std::vector<RIV> order; for(auto i = f.indicatorVariablesOrderBegin(); i != f.indicatorVariablesOrderEnd(); ++i) order.push_back(read(*i));
   if(given) { c.eq(cons.size(), given->size(), "number of constraints"); for(size_t k = 0; k < cons.size(); ++k) c.check(hashOf(cons[k]) == hashOf((*given)[k]), "the constraints are the ones given"); }
   for(size_t i = 0; i < order.size(); ++i) for(size_t j = 0; j < i; ++j) c.check(!same(order[i], order[j]), "an indicator variable is listed once");
   static const double TOL[] = {0, 0.5, 1}; int t = c.choose(4); double tol = t < 3 ? TOL[t] : 0;
   labelings(shape, [&](const V& x) {
      bool ok = valid(x), cok = true; for(auto& k : cons) cok = cok && violation(k, x) == 0; c.eq(cok, ok, "the listed constraints describe the feasible labelings"); c.eq(f(x.begin()), ok ? rv : ri, "the function returns its satisfied value exactly for feasible labelings");
      challengeAt(c, f, cons, x, tol, t == 3); std::vector<double> y; for(auto& o : order) y.push_back(holds(o, x)); relaxedAt(c, f, cons, order, y, tol, t == 3);
   });
   static const double G[] = {0, 0.5, 1}; std::vector<double> y(order.size(), 0); std::vector<int> k(order.size(), 0); long n = 0;
   while(true) { for(size_t i = 0; i < k.size(); ++i) y[i] = grid == 3 ? G[k[i]] : k[i] * 0.75; relaxedAt(c, f, cons, order, y, tol, t == 3); ++n; size_t i = 0; for(; i < k.size(); ++i) { if(++k[i] < grid) break; k[i] = 0; } if(i == k.size()) break; }
   c.step(n);
}
template<class F> static F roundTrip(Ctx& c, const F& f) {
   typedef opengm::FunctionSerialization<F> S; std::vector<opengm::UInt64Type> ix(S::indexSequenceSize(f)); std::vector<double> va(S::valueSequenceSize(f)); ix.push_back(77); va.push_back(-77); S::serialize(f, ix.begin(), va.begin()); c.eq(ix.back(), (opengm::UInt64Type)77, "serialisation writes what it announced"); c.eq(va.back(), -77.0, "serialisation writes what it announced");
   F g; S::deserialize(ix.begin(), va.begin(), g); return g;
}
template<class F, class VALID> static void everyWay(Ctx& c, const F& f, const V& shape, const std::vector<RLC>* given, VALID valid, double rv, double ri, int grid) {
   switch(c.choose(4)) {
      case 0: checkFunction(c, f, shape, given, valid, rv, ri, grid); break;
      case 1: { F* p = new F(f); F g(*p); delete p; checkFunction(c, g, shape, given, valid, rv, ri, grid); break; }
      case 2: checkFunction(c, roundTrip(c, f), shape, given, valid, rv, ri, grid); break;
      case 3: {   // inside a model, behind another variable
         typedef opengm::GraphicalModel<double, opengm::Adder, typename opengm::meta::TypeListGenerator<opengm::ExplicitFunction<double>, F>::type, opengm::DiscreteSpace<> > GM;
         std::vector<size_t> L(1, 2), vi; for(size_t i = 0; i < shape.size(); ++i) { vi.push_back(i + 1); L.push_back(shape[i]); } GM gm(opengm::DiscreteSpace<>(L.begin(), L.end())); gm.addFactor(gm.addFunction(f), vi.begin(), vi.end());
         c.check(gm[0].isLinearConstraint(), "the factor of a constraint function is a linear constraint"); labelings(shape, [&](const V& x) { V y(1, 1); y.insert(y.end(), x.begin(), x.end()); c.eq(gm.evaluate(y.begin()), valid(x) ? rv : ri, "the model's value"); c.eq(gm[0](x.begin()), valid(x) ? rv : ri, "the factor's value"); }); break;
      }
   }
}
static const double RET[][2] = {{0, 1}, {0, 1000}, {2, -3}, {1, 1}};
MC_SCENARIO("linear constraint functions") {
   static const std::vector<V> SH = {{2, 2, 3}, {3, 2, 3}}; const V& shape = SH[c.choose(c.tier(1, 2))]; int nc = 1 + c.choose(2), n = c.tier(4, 5); std::vector<RLC> rs; std::vector<LC> ks;
   for(int k = 0; k < nc; ++k) {
      RLC r; r.cmp = c.choose(3); r.bound = BOUND[k == 0 ? c.choose(3) : (r.cmp + 1) % 4]; int t = 1 + c.choose(k == 0 ? 2 : 1); LC q; std::vector<IV> iv; for(int i = 0; i < t; ++i) { iv.push_back(pickIV(c, r, n)); r.c.push_back(k == 0 && i == 0 ? 1 : COEF[(i + k + r.cmp) % 4]); }
      ks.push_back(LC(iv, r.c, r.bound, CMP[r.cmp])); rs.push_back(r); MC_TRACE(c, str(r));
   }
   int how = c.choose(3); const double* ret = RET[how == 2 ? 0 : c.choose(4)]; typedef opengm::LinearConstraintFunction<double> F;
   F f = how == 0 ? F(shape.begin(), shape.end(), ks, ret[0], ret[1]) : how == 1 ? F(shape.begin(), shape.end(), ks.begin(), ks.end(), ret[0], ret[1]) : F(shape.begin(), shape.end(), ks);
   everyWay(c, f, shape, &rs, [&](const V& x) { for(auto& r : rs) if(violation(r, x) > 0) return false; return true; }, ret[0], ret[1], 3); for(auto& r : rs) c.state(hashOf(r));
}
MC_SCENARIO("label order functions") {
   static const double W[] = {0, 1, 2, -1}; int a = c.range(1, 3), b = c.range(1, 3), len = std::max(a, b) + c.choose(2); std::vector<double> w; for(int i = 0; i < len; ++i) w.push_back(i < std::max(a, b) ? c.pick(W) : 5.0);
   int how = c.choose(3); const double* ret = RET[how == 2 ? 0 : c.choose(4)]; typedef opengm::LabelOrderFunction<double> F; MC_TRACE(c, "labels " << a << " " << b << " order " << show(w));
   F f = how == 0 ? F(a, b, w, ret[0], ret[1]) : how == 1 ? F(a, b, w.begin(), ret[0], ret[1]) : F(a, b, w); V shape = {(size_t)a, (size_t)b};
   everyWay(c, f, shape, 0, [&](const V& x) { return w[x[0]] <= w[x[1]]; }, ret[0], ret[1], c.tier(2, 3)); for(double x : w) c.state(mc::mix(mc::bitsOf(x), a * 8 + b));
}
static size_t distinct(const V& x) { return std::set<size_t>(x.begin(), x.end()).size(); }
MC_SCENARIO("label count limits") {
   static const std::vector<V> SH = {{2}, {3, 3}, {2, 2, 2}, {3, 3, 3}, {2, 3}, {3, 2, 1}, {1, 2, 4}, {2, 2, 2, 3}, {4, 4, 4}, {1, 1}}; const V& shape = c.pick(SH); size_t mx = *std::max_element(shape.begin(), shape.end()); int lim = c.range(0, (int)mx + 1); bool uniform = std::count(shape.begin(), shape.end(), shape[0]) == (long)shape.size();
   int how = c.choose(uniform ? 4 : 2); const double* ret = RET[how % 2 ? 0 : c.choose(4)]; typedef opengm::NumLabelsLimitationFunction<double> F; MC_TRACE(c, "shape " << show(shape) << " at most " << lim << " labels");
   F f = how == 0 ? F(shape.begin(), shape.end(), lim, ret[0], ret[1]) : how == 1 ? F(shape.begin(), shape.end(), lim) : how == 2 ? F(shape.size(), shape[0], lim, ret[0], ret[1]) : F(shape.size(), shape[0], lim);
   everyWay(c, f, shape, 0, [&](const V& x) { return distinct(x) <= (size_t)lim; }, ret[0], ret[1], 3); c.state(mc::mix(shape.size() * 100 + lim, shape[0]));
}
// ---- soft constraints -------------------------------------------------------------------------------
// the linear program an LP solver gets for a function: minimum over the slack variables at a labeling
template<class F> static void checkTransfer(Ctx& c, const F& f, const V& shape) {
   typedef opengm::LPFunctionTransfer<double> T; c.check(T::template isTransferable<F>(), "the function can be handed to an LP solver"); size_t ns = T::template numSlackVariables<F>(f); typename T::IndicatorVariablesContainerType so, iv; typename T::SlackVariablesObjectiveCoefficientsContainerType sc; typename T::LinearConstraintsContainerType lc;
   T::template getSlackVariablesOrder<F>(f, so); T::template getSlackVariablesObjectiveCoefficients<F>(f, sc); T::template getIndicatorVariables<F>(f, iv); T::template getLinearConstraints<F>(f, lc); c.eq(so.size(), ns, "slack variables"); c.eq(sc.size(), ns, "slack coefficients"); std::vector<RIV> slack, ivs; for(auto& s : so) slack.push_back(read(s)); for(auto& s : iv) ivs.push_back(read(s)); std::vector<RLC> cons; for(auto& k : lc) cons.push_back(read(k));
   for(auto& k : cons) for(auto& v : k.v) { bool in = false; for(auto& u : ivs) in = in || same(u, v); c.check(in, "every variable of the program is announced"); }
   labelings(shape, [&](const V& x) {
      // each slack variable s_j >= 0 occurs alone in its constraints: compute its cheapest feasible value
      double total = 0; for(size_t j = 0; j < ns; ++j) { double lo = 0, hi = 1e9; for(auto& k : cons) { double s = -k.bound, q = 0; bool mine = false; for(size_t i = 0; i < k.v.size(); ++i) { bool isSlack = false; for(size_t m = 0; m < ns; ++m) if(same(slack[m], k.v[i])) { isSlack = true; if(m == j) { q += k.c[i]; mine = true; } } if(!isSlack && holds(k.v[i], x)) s += k.c[i]; } if(!mine) continue; double at = -s / q; if(k.cmp == 1) { lo = std::max(lo, at); hi = std::min(hi, at); } else if((k.cmp == 0) == (q > 0)) hi = std::min(hi, at); else lo = std::max(lo, at); } c.check(lo <= hi, "every labeling is feasible in the program"); total += sc[j] * (sc[j] >= 0 ? lo : hi); }
      c.eq(total, (double)f(x.begin()), "the linear program's cost is the function's value");
   });
}
template<class F, class COST> static void checkSoft(Ctx& c, const F& f0, const V& shape, COST cost, bool transfer) {
   typedef opengm::GraphicalModel<double, opengm::Adder, typename opengm::meta::TypeListGenerator<opengm::ExplicitFunction<double>, F>::type, opengm::DiscreteSpace<> > GM; int way = c.choose(4); F f = way == 1 ? roundTrip(c, f0) : f0;
   if(way == 2) { std::vector<size_t> L(1, 2), vi; for(size_t i = 0; i < shape.size(); ++i) { vi.push_back(i + 1); L.push_back(shape[i]); } GM gm(opengm::DiscreteSpace<>(L.begin(), L.end())); gm.addFactor(gm.addFunction(f), vi.begin(), vi.end()); labelings(shape, [&](const V& x) { V y(1, 1); y.insert(y.end(), x.begin(), x.end()); c.eq(gm.evaluate(y.begin()), cost(x), "the model's value"); }); c.check(!gm[0].isLinearConstraint(), "a soft constraint is no linear constraint"); return; }
   if(way == 3) { if(transfer) checkTransfer(c, f, shape); return; }
   c.eq(f.dimension(), shape.size(), "dimension"); size_t sz = 1; for(size_t i = 0; i < shape.size(); ++i) { c.eq(f.shape(i), shape[i], "shape"); sz *= shape[i]; } c.eq(f.size(), sz, "size"); double lo = 1e9, hi = -1e9;
   labelings(shape, [&](const V& x) { c.eq((double)f(x.begin()), cost(x), "the documented cost"); lo = std::min(lo, cost(x)); hi = std::max(hi, cost(x)); }); c.eq((double)f.min(), lo, "min"); c.eq((double)f.max(), hi, "max");
}
static const std::vector<V>& softShapes() { static const std::vector<V> s = {{2}, {2, 2}, {3, 3}, {2, 2, 2}, {3, 3, 3}, {2, 3}, {3, 2, 1}, {1, 2, 4}, {2, 2, 2, 3}, {1, 1}, {4, 1}}; return s; }
MC_SCENARIO("label costs") {
   const V& shape = c.pick(softShapes()); size_t mx = *std::max_element(shape.begin(), shape.end()); bool uniform = std::count(shape.begin(), shape.end(), shape[0]) == (long)shape.size(); typedef opengm::LabelCostFunction<double> F; static const double C[] = {0, 1, 2.5, -2}; F f; std::vector<double> cost(mx + 2, 0.0); bool neg = false;
   if(c.flip()) { std::vector<double> q; int extra = c.choose(2); for(size_t l = 0; l < mx; ++l) { double v = c.pick(C); cost[l] = v; q.push_back(v); } if(extra) q.push_back(9); f = uniform && c.flip() ? F(shape.size(), shape[0], q.begin(), q.end()) : F(shape.begin(), shape.end(), q.begin(), q.end()); }
   else { size_t l = c.choose((int)mx); cost[l] = c.pick(C); f = uniform && c.flip() ? F(shape.size(), shape[0], l, cost[l]) : F(shape.begin(), shape.end(), l, cost[l]); }
   MC_TRACE(c, "shape " << show(shape) << " costs " << show(cost)); (void)neg; checkSoft(c, f, shape, [&](const V& x) { double s = 0; for(size_t l = 0; l < mx; ++l) if(std::find(x.begin(), x.end(), l) != x.end()) s += cost[l]; return s; }, true); mc::u64 h = shape.size(); for(double v : cost) h = mc::mix(h, mc::bitsOf(v)); c.state(h);
}
MC_SCENARIO("sum constraints") {
   const V& shape = c.pick(softShapes()); size_t mx = *std::max_element(shape.begin(), shape.end()), sum = 0; for(size_t s : shape) sum += s; bool uniform = std::count(shape.begin(), shape.end(), shape[0]) == (long)shape.size(); typedef opengm::SumConstraintFunction<double> F; static const double C[] = {0, 1, -2, 0.5}; bool share = c.flip(); std::vector<double> q; size_t free = c.tier(4, 5);
   for(size_t i = 0; i < (share ? mx : sum); ++i) q.push_back(i < free ? c.pick(C) : (double)((i * 5 + 1) % 7) - 2); int par = c.choose(4); static const double LB[][2] = {{1, 0}, {2, 1}, {0.5, -3}, {0, 2}}; double lam = LB[par][0], bound = LB[par][1]; bool num = uniform && c.flip();
   F f = par == 0 ? (num ? F(shape.size(), shape[0], q.begin(), q.end(), share) : F(shape.begin(), shape.end(), q.begin(), q.end(), share)) : (num ? F(shape.size(), shape[0], q.begin(), q.end(), share, lam, bound) : F(shape.begin(), shape.end(), q.begin(), q.end(), share, lam, bound));
   MC_TRACE(c, "shape " << show(shape) << " coefficients " << show(q) << " shared " << share << " lambda " << lam << " bound " << bound);
   checkSoft(c, f, shape, [&](const V& x) { double s = -bound; size_t off = 0; for(size_t i = 0; i < x.size(); ++i) { s += q[(share ? 0 : off) + x[i]]; off += shape[i]; } return std::fabs(s) * lam; }, true); mc::u64 h = shape.size(); for(double v : q) h = mc::mix(h, mc::bitsOf(v)); c.state(h);
}
