// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c06_algebra.hxx"
typedef Alg<double, size_t, size_t> A; typedef A::IF IF; typedef A::FA FA;
static RF fixRef(const RF& x, unsigned mf, const Co& lab) { std::vector<size_t> rest; for(size_t v : x.vi) if(!(mf >> v & 1)) rest.push_back(v); RF r = RF::on(rest); r.t.fill([&](const Co& y) { Co z = r.full(y); for(size_t i = 0; i < NV; ++i) if(mf >> i & 1) z[i] = lab[i]; return x.at(z); }); return r; }
MC_SCENARIO("fix") {
   A a; RF x(c.choose(16), c.choose(2)); unsigned mf = c.choose(16); Co lab(NV, 0); std::vector<size_t> vi, l; for(size_t i = 0; i < NV; ++i) if(mf >> i & 1) { lab[i] = c.choose((int)LAB[i]); vi.push_back(i); l.push_back(lab[i]); } MC_TRACE(c, "fix " << mf << " in " << x.t.str());
   RF r = fixRef(x, mf, lab); IF p = a.indep(x); p.fixVariables(vi.begin(), vi.end(), l.begin()); same(c, p, r, "fixVariables"); c.state(r.t.hash());
}
// constructors and assignments over any previous content
MC_SCENARIO("assign") {
   A a; RF old(c.choose(16), 0), x(c.choose(16), 1); size_t ix = a.factor(x, c.choose(4)); int how = c.choose(8); IF p = a.indep(old); MC_TRACE(c, "assign " << how << " over " << old.t.str()); RF r = x; auto con = [&](double v) { for(double& z : r.t.v) z = v; };
   switch(how) { case 0: p = (*a.gm)[ix]; break; case 1: p = a.indep(x); break; case 2: p.assign(*a.gm, x.vi.begin(), x.vi.end(), 3.0); con(3); break; case 3: p.assign(*a.gm, x.vi.begin(), x.vi.end()); con(0); break; case 4: p.assign(x.vi.begin(), x.vi.end(), x.t.sh.begin(), x.t.sh.end(), 5.0); con(5); break; case 5: p.assign(x.vi.begin(), x.vi.end(), x.t.sh.begin(), x.t.sh.end()); con(1); break; case 6: p.assign(2.5); r = RF::on({}); con(2.5); break; case 7: { IF q(x.vi.begin(), x.vi.end(), x.t.sh.begin(), x.t.sh.end(), 6.0); same(c, q, mapv(x, [](double) { return 6.0; }), "constructor"); IF q1(x.vi.begin(), x.vi.end(), x.t.sh.begin(), x.t.sh.end()); same(c, q1, mapv(x, [](double) { return 1.0; }), "constructor default"); IF q2(*a.gm, x.vi.begin(), x.vi.end()); same(c, q2, mapv(x, [](double) { return 0.0; }), "constructor from model"); IF q3(4.0); same(c, q3, mapv(RF::on({}), [](double) { return 4.0; }), "scalar constructor"); IF q4; same(c, q4, mapv(RF::on({}), [](double) { return 1.0; }), "default constructor"); IF q5(a.indep(x)); same(c, q5, x, "copy"); p = q5; break; } }
   same(c, p, r, "assigned"); IF q(p); p += 1.0; same(c, p, mapv(r, [](double v) { return v + 1; }), "assigned, then changed"); same(c, q, r, "copy unaffected"); c.state(mc::mix(r.t.hash(), how));
}
// histories of operations on one independent factor
MC_SCENARIO("histories") {
   A a; RF pool[3] = {RF(1, 0), RF(6, 0), RF(9, 1)}; size_t fi[3]; for(int i = 0; i < 3; ++i) fi[i] = a.factor(pool[i], i == 2 ? 1 : 0); std::vector<IF> q; for(int i = 0; i < 3; ++i) q.push_back(a.indep(pool[i])); RF r = RF::on({}); r.t.v[0] = 1; IF p;
   int n = c.tier(4, 5); for(int s = 0; s < n; ++s) {
      int o = c.choose(11); MC_TRACE(c, "step " << o);
      switch(o) { case 0: case 1: case 2: p += q[o]; r = merge(r, pool[o], [](double x, double y) { return x + y; }); break; case 3: case 4: p *= (*a.gm)[fi[o - 2]]; r = merge(r, pool[o - 2], [](double x, double y) { return x * y; }); break;
         case 5: { std::vector<size_t> v = {1, 3}; p.accumulate<Minimizer>(v.begin(), v.end()); RF e = r; for(size_t k : v) { std::vector<size_t> rest; for(size_t w : e.vi) if(w != k) rest.push_back(w); if(rest.size() == e.vi.size()) continue; RF f = RF::on(rest); for(double& z : f.t.v) z = INFINITY; for(size_t i = 0; i < e.t.v.size(); ++i) { Co full = e.full(e.t.co(i)), y; for(size_t w : rest) y.push_back(full[w]); f.t.at(y) = std::min(f.t.at(y), e.t.v[i]); } e = f; } r = e; break; }
         case 6: { size_t v = 0, l = 1; p.fixVariables(&v, &v + 1, &l); r = fixRef(r, 1, Co{1, 0, 0, 0}); break; } case 7: p -= 2.0; r = mapv(r, [](double x) { return x - 2; }); break; case 8: p = (*a.gm)[fi[1]]; r = pool[1]; break; case 9: { IF t(p); p = q[2]; p += t; r = merge(pool[2], r, [](double x, double y) { return x + y; }); break; }
         case 10: { std::vector<size_t> v = {2, 0}; IF t; p.accumulate<Maximizer>(v.begin(), v.end(), t); p = t; RF e = r; for(size_t k : v) { std::vector<size_t> rest; for(size_t w : e.vi) if(w != k) rest.push_back(w); if(rest.size() == e.vi.size()) continue; RF f = RF::on(rest); for(double& z : f.t.v) z = -INFINITY; for(size_t i = 0; i < e.t.v.size(); ++i) { Co full = e.full(e.t.co(i)), y; for(size_t w : rest) y.push_back(full[w]); f.t.at(y) = std::max(f.t.at(y), e.t.v[i]); } e = f; } r = e; break; } }
      same(c, p, r, "after the step", 1e-12); for(int i = 0; i < 3; ++i) { same(c, q[i], pool[i], "operand unchanged"); } c.state(r.t.hash());
   }
}
