// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -DC06_MANYLABELS
#include "c06_algebra.hxx"
#include "c06_accumulate.hxx"
typedef Alg<double, size_t, size_t> A; typedef A::IF IF; typedef A::FA FA;
MC_SCENARIO("many labels/binary") {
   A a; unsigned ma = c.pick(MASKS), mb = c.pick(MASKS); int op = c.choose(4), kind = c.choose(4), fx = c.choose(2) * 2; if(kind == 0 && fx) c.prune(); RF x(ma, 0), y(mb, 0); size_t ix = a.factor(x, fx), iy = a.factor(y, fx); IF p = a.indep(x), q = a.indep(y); if(op == 3) for(double v : y.t.v) if(v == 0) c.prune();
   MC_TRACE(c, "variables " << ma << " and " << mb << " operation " << op << " kind " << kind); RF r = merge(x, y, [&](double s, double t) { return apply(op, s, t); }); const FA& f = (*a.gm)[ix]; const FA& g = (*a.gm)[iy];
   IF z = kind == 0 ? binary<IF>(op, p, q) : kind == 1 ? binary<IF>(op, f, q) : kind == 2 ? binary<IF>(op, p, g) : binary<IF>(op, f, g); same(c, z, r, "result"); IF w(p); if(kind >= 2) inplace(op, w, g); else inplace(op, w, q); same(c, w, r, "result in place"); same(c, q, y, "right operand"); same(c, p, x, "left operand");
   IF u(p); if(kind == 0) { u *= 2.0; same(c, u, mapv(x, [](double v) { return v * 2; }), "scaled"); } c.state(mc::mix(r.t.hash(), ma * 4096 + mb));
}
MC_SCENARIO("many labels/accumulate") {
   int acc = c.choose(4); unsigned m = c.pick(MASKS); int ft = c.pick(std::vector<int>{0, 2});
   switch(acc) { case 0: accumulations<A, Minimizer, true>(c, acc, m, ft, 0, false); break; case 1: accumulations<A, Maximizer, true>(c, acc, m, ft, 1, false); break; case 2: accumulations<A, Adder, false>(c, acc, m, ft, 1, false); break; default: accumulations<A, Integrator, false>(c, 4, m, ft, 0, false); break; }
}
MC_SCENARIO("many labels/fix") {
   A a; RF x(c.pick(MASKS), c.choose(2)); unsigned mf = c.pick(MASKS); int k = c.choose(3); Co lab(NV, 0); std::vector<size_t> vi, l; for(size_t i = 0; i < NV; ++i) if(mf >> i & 1) { lab[i] = k == 0 ? 0 : k == 1 ? LAB[i] - 1 : (i * 7 + 3) % LAB[i]; vi.push_back(i); l.push_back(lab[i]); } MC_TRACE(c, "fix " << mf << " labels " << k);
   std::vector<size_t> rest; for(size_t v : x.vi) if(!(mf >> v & 1)) rest.push_back(v); RF r = RF::on(rest); r.t.fill([&](const Co& y) { Co z = r.full(y); for(size_t i = 0; i < NV; ++i) if(mf >> i & 1) z[i] = lab[i]; return x.at(z); });
   IF p = a.indep(x), q(p); p.fixVariables(vi.begin(), vi.end(), l.begin()); same(c, p, r, "fixVariables"); same(c, q, x, "copy unaffected"); p = q; same(c, p, x, "assigned back"); IF t = a.indep(r); t = q; same(c, t, x, "assigned over a smaller factor"); c.state(r.t.hash());
}
