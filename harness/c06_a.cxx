// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c06_algebra.hxx"
typedef Alg<double, size_t, size_t> A; typedef A::IF IF; typedef A::FA FA;
// every pair of variable sets, every operation, factors and independent factors on both sides
MC_SCENARIO("binary") {
   A a; unsigned ma = c.choose(16), mb = c.choose(16); int op = c.choose(6), kind = c.choose(4), va = c.choose(2), vb = c.choose(c.tier(1, 2)); if(op >= 4) { va = va ? 3 : 1; vb = 3; }
   RF x(ma, va), y(mb, vb); bool dx = kind == 1 || kind == 3, dy = kind == 2 || kind == 3; int fx = dx ? c.choose(4) : 0, fy = dy ? c.choose(4) : 0; size_t ix = a.factor(x, fx), iy = a.factor(y, fy); IF p = a.indep(x), q = a.indep(y);
   if(op == 3) for(double v : y.t.v) if(v == 0) c.prune();
   MC_TRACE(c, "variables " << ma << " and " << mb << " operation " << op << " kind " << kind << " types " << fx << fy); RF r = merge(x, y, [&](double s, double t) { return apply(op, s, t); });
   const FA& f = (*a.gm)[ix]; const FA& g = (*a.gm)[iy];
   IF z = kind == 0 ? binary<IF>(op, p, q) : kind == 1 ? binary<IF>(op, f, q) : kind == 2 ? binary<IF>(op, p, g) : binary<IF>(op, f, g); same(c, z, r, "result");
   same(c, p, x, "left operand"); same(c, q, y, "right operand"); same(c, IF(f), x, "left factor"); same(c, IF(g), y, "right factor");
   IF w(p); if(dy) inplace(op, w, g); else inplace(op, w, q); same(c, w, r, "result in place"); same(c, q, y, "right operand after in place"); same(c, IF(g), y, "right factor after in place");
   // results written over something else, by functor
   IF o = a.indep(y); o += 1.0; if(kind == 0) operateBinary(p, q, o, std::minus<double>()); else if(kind == 1) operateBinary(f, q, o, std::minus<double>()); else if(kind == 2) operateBinary(p, g, o, std::minus<double>()); else operateBinary(f, g, o, std::minus<double>()); same(c, o, merge(x, y, [](double s, double t) { return s - t; }), "operateBinary into a used factor");
   if(op == 0) { IF m(p); m.operateBinary(q, MinF<double>()); same(c, m, merge(x, y, [](double s, double t) { return std::min(s, t); }), "member operateBinary min"); IF n; n.operateBinary(p, q, MaxF<double>()); same(c, n, merge(x, y, [](double s, double t) { return std::max(s, t); }), "member operateBinary max"); IF k(p); k.operateBinary(g, MaxF<double>()); same(c, k, merge(x, y, [](double s, double t) { return std::max(s, t); }), "member operateBinary with a factor");
      IF s(p); Adder::op(q, s); same(c, s, merge(x, y, [](double u, double v) { return u + v; }), "Adder::op"); IF t(p); Multiplier::op(q, t); same(c, t, merge(x, y, [](double u, double v) { return u * v; }), "Multiplier::op"); IF u; Adder::iop(p, q, u); same(c, u, merge(x, y, [](double u, double v) { return u - v; }), "Adder::iop"); IF v(p); Adder::iop(q, v); same(c, v, merge(x, y, [](double u, double v) { return u - v; }), "Adder::iop in place"); }
   c.state(mc::mix(r.t.hash(), ma * 16 + mb));
}
