// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c06_algebra.hxx"
typedef Alg<double, size_t, size_t> A; typedef A::IF IF; typedef A::FA FA;
// scalars on either side; unary functors; offset; powers; weighted operations
MC_SCENARIO("scalar") {
   A a; unsigned ma = c.choose(16); int op = c.choose(6), fx = c.choose(4); RF x(ma, op >= 4 ? 3 : c.choose(2)); double s = op >= 4 ? (double)c.choose(2) : c.pick(std::vector<double>{2, -0.5}); size_t ix = a.factor(x, fx); IF p = a.indep(x); const FA& f = (*a.gm)[ix]; if(op == 3) for(double v : x.t.v) if(v == 0) c.prune();
   MC_TRACE(c, "variables " << ma << " operation " << op << " scalar " << s); RF r = mapv(x, [&](double v) { return apply(op, v, s); }), l = mapv(x, [&](double v) { return apply(op, s, v); });
   same(c, binary<IF>(op, p, s), r, "factor op scalar"); same(c, binary<IF>(op, f, s), r, "model factor op scalar"); same(c, binary<IF>(op, s, p), l, "scalar op factor"); same(c, binary<IF>(op, s, f), l, "scalar op model factor"); { IF w(p); inplace(op, w, s); same(c, w, r, "in place with scalar"); } same(c, p, x, "operand"); same(c, IF(f), x, "model factor operand");
   { IF w(p); w.operateUnary(Twice<double>()); same(c, w, mapv(x, [](double v) { return 2 * v + 1; }), "operateUnary"); IF o = a.indep(x); operateUnary(f, o, Twice<double>()); same(c, o, mapv(x, [](double v) { return 2 * v + 1; }), "operateUnary of a model factor"); operateUnary(o, Twice<double>()); same(c, o, mapv(x, [](double v) { return 4 * v + 3; }), "operateUnary in place"); IF e; operateUnary(p, e, Twice<double>()); same(c, e, mapv(x, [](double v) { return 2 * v + 1; }), "operateUnary into an empty factor"); }
   { IF w(p); double mn = *std::min_element(x.t.v.begin(), x.t.v.end()); w.subtractOffset(); same(c, w, mapv(x, [&](double v) { return v - mn; }), "subtractOffset"); }
   if(op == 0) { RF y(ma, 0); IF w = a.indep(y); Multiplier::hop(0.5, w); same(c, w, mapv(y, [](double v) { return std::sqrt(v); }), "Multiplier::hop", 1e-12); IF u; Multiplier::hop(a.indep(y), 2.0, u); same(c, u, mapv(y, [](double v) { return v * v; }), "Multiplier::hop (3)", 1e-12); IF v = a.indep(y); Multiplier::ihop(2.0, v); same(c, v, mapv(y, [](double z) { return std::sqrt(z); }), "Multiplier::ihop", 1e-12); IF h(p); Adder::hop(0.5, h); same(c, h, mapv(x, [](double z) { return z * 0.5; }), "Adder::hop"); IF k(p); Adder::ihop(0.5, k); same(c, k, mapv(x, [](double z) { return z * 2; }), "Adder::ihop");
      IF g = a.indep(y), out; RF o2(ma, 4); IF q = a.indep(o2); out = q; WeightedOperations::weightedMean<Adder>(g, q, 0.25, out); same(c, out, merge(y, o2, [](double s, double t) { return t + 0.25 * (s - t); }), "weightedMean", 1e-12); IF z(q); WeightedOperations::wop<Adder>(g, 0.5, z); same(c, z, merge(y, o2, [](double s, double t) { return t + 0.5 * s; }), "wop", 1e-12); IF z2(q); WeightedOperations::iwop<Adder>(g, 0.5, z2); same(c, z2, merge(y, o2, [](double s, double t) { return t + 2 * s; }), "iwop", 1e-12); IF z3(q); WeightedOperations::wiop<Adder>(g, 0.5, z3); same(c, z3, merge(y, o2, [](double s, double t) { return t - 0.5 * s; }), "wiop", 1e-12);
      IF nz(g); double tot = 0; for(double v : y.t.v) tot += v; Normalization::normalize<Integrator, Multiplier>(nz); same(c, nz, mapv(y, [&](double v) { return v / tot; }), "normalize to sum one", 1e-12); { IF small(g); small *= 1e-9; Normalization::normalize<Integrator, Multiplier>(small); same(c, small, mapv(y, [&](double v) { return v / tot; }), "normalize small values", 1e-12); } IF nm(p); double mx = *std::max_element(x.t.v.begin(), x.t.v.end()), mi = *std::min_element(x.t.v.begin(), x.t.v.end()); Normalization::normalize<Minimizer, Adder>(nm); same(c, nm, mapv(x, [&](double v) { return v - mi; }), "normalize to minimum zero"); IF ny(g); double my = *std::max_element(y.t.v.begin(), y.t.v.end()); Normalization::normalize<Maximizer, Multiplier>(ny); same(c, ny, mapv(y, [&](double v) { return v / my; }), "normalize to maximum one", 1e-12); (void)mx; }
   c.state(r.t.hash());
}
// a factor combined with itself
MC_SCENARIO("self") {
   A a; RF x(c.choose(16), 0); IF p = a.indep(x); int op = c.choose(4); MC_TRACE(c, "self operation " << op); inplace(op, p, p); same(c, p, mapv(x, [&](double v) { return apply(op, v, v); }), "factor combined with itself"); IF q = a.indep(x); same(c, binary<IF>(op, q, q), mapv(x, [&](double v) { return apply(op, v, v); }), "new factor from a factor and itself"); q = q; same(c, q, x, "self assignment"); c.state(x.t.hash());
}
// scalar semantics of the operation objects
MC_SCENARIO("operations") {
   static const std::vector<double> V = {0, 1, -2, 3.5, -0.5}; double x = c.pick(V), y = c.pick(V), o; MC_TRACE(c, x << " " << y);
   o = y; Adder::op(x, o); c.near(o, x + y, 0, "Adder::op"); Adder::op(x, y, o = 9); c.near(o, x + y, 0, "Adder::op 3"); o = y; Adder::iop(x, o); c.near(o, y - x, 0, "Adder::iop"); Adder::iop(x, y, o = 9); c.near(o, x - y, 0, "Adder::iop 3"); o = y; Adder::hop(x, o); c.near(o, x * y, 0, "Adder::hop"); Adder::hop(x, y, o = 9); c.near(o, x * y, 0, "Adder::hop 3");
   o = y; Multiplier::op(x, o); c.near(o, x * y, 0, "Multiplier::op"); Multiplier::op(x, y, o = 9); c.near(o, x * y, 0, "Multiplier::op 3"); if(x != 0) { o = y; Multiplier::iop(x, o); c.near(o, y / x, 0, "Multiplier::iop"); Multiplier::iop(y, x, o = 9); c.near(o, y / x, 0, "Multiplier::iop 3"); o = y; Adder::ihop(x, o); c.near(o, y / x, 0, "Adder::ihop"); Adder::ihop(y, x, o = 9); c.near(o, y / x, 0, "Adder::ihop 3"); }
   o = y; Minimizer::op(x, o); c.near(o, std::min(x, y), 0, "Minimizer::op"); Minimizer::op(x, y, o = 9); c.near(o, std::min(x, y), 0, "Minimizer::op 3"); o = y; Minimizer::iop(x, o); c.near(o, std::max(x, y), 0, "Minimizer::iop"); Minimizer::iop(x, y, o = 9); c.near(o, std::max(x, y), 0, "Minimizer::iop 3"); c.eq(Minimizer::bop(x, y), x < y, "Minimizer::bop"); c.eq(Minimizer::ibop(x, y), x > y, "Minimizer::ibop");
   o = y; Maximizer::op(x, o); c.near(o, std::max(x, y), 0, "Maximizer::op"); Maximizer::op(x, y, o = -9); c.near(o, std::max(x, y), 0, "Maximizer::op 3"); o = y; Maximizer::iop(x, o); c.near(o, std::min(x, y), 0, "Maximizer::iop"); Maximizer::iop(x, y, o = 9); c.near(o, std::min(x, y), 0, "Maximizer::iop 3"); c.eq(Maximizer::bop(x, y), x > y, "Maximizer::bop"); c.eq(Maximizer::ibop(x, y), x < y, "Maximizer::ibop");
   o = y; Integrator::op(x, o); c.near(o, x + y, 0, "Integrator::op"); Integrator::op(x, y, o = 9); c.near(o, x + y, 0, "Integrator::op 3"); o = y; Integrator::iop(x, o); c.near(o, y - x, 0, "Integrator::iop"); Integrator::iop(x, y, o = 9); c.near(o, x - y, 0, "Integrator::iop 3");
   double l = std::log(std::exp(x) + std::exp(y)); o = y; Logsumexp::op(x, o); c.near(o, l, 1e-12, "Logsumexp::op"); Logsumexp::op(x, y, o = 9); c.near(o, l, 1e-12, "Logsumexp::op 3");
   bool bx = x > 0, by = y > 0, b; And::op(bx, by, b); c.eq(b, bx && by, "And::op 3"); b = by; And::op(bx, b); c.eq(b, bx && by, "And::op"); Or::op(bx, by, b); c.eq(b, bx || by, "Or::op 3"); b = by; Or::op(bx, b); c.eq(b, bx || by, "Or::op");
   c.eq(And::bop(bx, by), bx && by, "And::bop"); c.eq(Or::bop(bx, by), bx || by, "Or::bop");
   c.eq(And::ibop(bx, by), !(bx && by), "And::ibop"); c.eq(Or::ibop(bx, by), !(bx || by), "Or::ibop"); { bool nb; And::neutral(nb); And::op(bx, nb); c.eq(nb, bx, "And neutral (by reference)"); Or::neutral(nb); Or::op(bx, nb); c.eq(nb, bx, "Or neutral (by reference)"); int p = bx, q = by, r; And::op(p, q, r); c.eq(r, (int)(bx && by), "And::op 3 (int)"); Or::op(p, q, r); c.eq(r, (int)(bx || by), "Or::op 3 (int)"); r = q; And::op(p, r); c.eq(r, (int)(bx && by), "And::op (int)"); r = q; Or::op(p, r); c.eq(r, (int)(bx || by), "Or::op (int)"); c.eq(And::bop(p, q), bx && by, "And::bop (int)"); c.eq(Or::bop(p, q), bx || by, "Or::bop (int)"); c.eq(And::ibop(p, q), !(bx && by), "And::ibop (int)"); c.eq(Or::ibop(p, q), !(bx || by), "Or::ibop (int)"); And::neutral(r); And::op(p, r); c.eq(r, p, "And neutral (int)"); Or::neutral(r); Or::op(p, r); c.eq(r, p, "Or neutral (int)"); c.check(And::hasbop() && Or::hasbop() && Minimizer::hasbop() && Maximizer::hasbop() && !Adder::hasbop() && !Multiplier::hasbop() && !Integrator::hasbop() && !Logsumexp::hasbop(), "which operations order their arguments"); }
   // neutral elements
   double n; Adder::neutral(n); Adder::op(x, n); c.near(n, x, 0, "Adder neutral"); Multiplier::neutral(n); Multiplier::op(x, n); c.near(n, x, 0, "Multiplier neutral"); Minimizer::neutral(n); Minimizer::op(x, n); c.near(n, x, 0, "Minimizer neutral"); Maximizer::neutral(n); Maximizer::op(x, n); c.near(n, x, 0, "Maximizer neutral"); Integrator::neutral(n); Integrator::op(x, n); c.near(n, x, 0, "Integrator neutral"); Logsumexp::neutral(n); Logsumexp::op(x, n); c.near(n, x, 1e-12, "Logsumexp neutral");
   Minimizer::ineutral(n); Minimizer::iop(x, n); c.near(n, x, 0, "Minimizer ineutral"); Maximizer::ineutral(n); Maximizer::iop(x, n); c.near(n, x, 0, "Maximizer ineutral"); int i, k = (int)x; Minimizer::neutral(i); Minimizer::op(k, i); c.eq(i, k, "Minimizer neutral (int)"); Maximizer::neutral(i); Maximizer::op(k, i); c.eq(i, k, "Maximizer neutral (int)"); c.near(Minimizer::neutral<double>(), Minimizer::neutral<double>(), 0, ""); b = And::neutral<bool>(); And::op(bx, b); c.eq(b, bx, "And neutral"); b = Or::neutral<bool>(); Or::op(bx, b); c.eq(b, bx, "Or neutral");
   i = Minimizer::neutral<int>(); Minimizer::op(k, i); c.eq(i, k, "Minimizer neutral (int, returned)"); i = Maximizer::neutral<int>(); Maximizer::op(k, i); c.eq(i, k, "Maximizer neutral (int, returned)"); n = Minimizer::neutral<double>(); Minimizer::op(x, n); c.near(n, x, 0, "Minimizer neutral (returned)"); n = Maximizer::neutral<double>(); Maximizer::op(x, n); c.near(n, x, 0, "Maximizer neutral (returned)"); n = Minimizer::ineutral<double>(); Minimizer::iop(x, n); c.near(n, x, 0, "Minimizer ineutral (returned)"); n = Maximizer::ineutral<double>(); Maximizer::iop(x, n); c.near(n, x, 0, "Maximizer ineutral (returned)");
   c.state(mc::mix(mc::bitsOf(x), mc::bitsOf(y)));
}
