// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c06_algebra.hxx"
#include "c06_accumulate.hxx"
// other value, index and label types
MC_SCENARIO("accumulate/int_uint32_uint8") { typedef Alg<int, unsigned, unsigned char> A; int acc = c.choose(4); unsigned m = c.choose(16); int ft = c.choose(4), var = c.choose(4); if(var == 1) c.prune();
   switch(acc) { case 0: accumulations<A, Minimizer, true>(c, acc, m, ft, var, false); break; case 1: accumulations<A, Maximizer, true>(c, acc, m, ft, var, false); break; case 2: accumulations<A, Adder, false>(c, acc, m, ft, var, false); break; case 3: accumulations<A, Multiplier, false>(c, acc, m, ft, var, false); break; } }
MC_SCENARIO("binary/float_uint32_uint8") {
   typedef Alg<float, unsigned, unsigned char> A; typedef A::IF IF; A a; unsigned ma = c.choose(16), mb = c.choose(16); int op = c.choose(3), fx = c.choose(4); RF x(ma, 0), y(mb, 1); size_t ix = a.factor(x, fx); IF p = a.indep(x), q = a.indep(y); RF r = merge(x, y, [&](double s, double t) { return apply(op, s, t); }); MC_TRACE(c, "variables " << ma << " and " << mb << " operation " << op);
   same(c, binary<IF>(op, p, q), r, "result", 1e-6); same(c, binary<IF>(op, (*a.gm)[ix], q), r, "result (model factor)", 1e-6); IF w(p); inplace(op, w, q); same(c, w, r, "result in place", 1e-6); w.template accumulate<Minimizer>(r.vi.begin(), r.vi.end()); RF e = RF::on({}); e.t.v[0] = *std::min_element(r.t.v.begin(), r.t.v.end()); same(c, w, e, "then accumulated", 1e-6); IF s(p); double mn = *std::min_element(x.t.v.begin(), x.t.v.end()); s.subtractOffset(); same(c, s, mapv(x, [&](double v) { return v - mn; }), "subtractOffset"); c.state(r.t.hash());
}
