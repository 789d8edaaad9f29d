template<class ACC> struct AccName {}; 
inline double accRef(int acc, const std::vector<double>& v) { double r = acc == 0 ? INFINITY : acc == 1 ? -INFINITY : acc == 3 ? 1 : acc == 5 ? -INFINITY : 0; for(double x : v) switch(acc) { case 0: r = std::min(r, x); break; case 1: r = std::max(r, x); break; case 2: case 4: r += x; break; case 3: r *= x; break; case 5: { double s = 0; s = std::exp(r) + std::exp(x); r = std::log(s); break; } } return r; }
template<class ALG, class ACC, bool STATE> static void accumulations(Ctx& c, int acc, unsigned ma, int ft, int variant, bool withInf) {
   typedef typename ALG::IF IF; typedef typename ALG::FA FA; ALG a; RF x(ma, variant); size_t nv = x.t.v.size(); if(withInf) { int o = c.choose((int)nv + 1); for(size_t k = 0; k < nv; ++k) if((int)k == o || o == (int)nv) x.t.v[k] = acc == 0 ? INFINITY : -INFINITY; ft = 0; }
   size_t ix = a.factor(x, ft); IF p = a.indep(x); const FA& f = (*a.gm)[ix]; double tol = acc == 5 ? 1e-9 : 0; if(acc == 3) tol = 1e-12;
   typedef typename ALG::N::E E; typedef typename E::LabelType L; typedef typename std::decay<decltype(p(0))>::type T;
   // all variables at once
   { T v = 77; opengm::accumulate<ACC>(p, v); double e = accRef(acc, x.t.v); c.near((double)v, e, tol * std::max(1.0, std::fabs(e)), "accumulate all"); v = 77; opengm::accumulate<ACC>(f, v); c.near((double)v, e, tol * std::max(1.0, std::fabs(e)), "accumulate all (model factor)"); v = 77; p.template accumulate<ACC>(v); c.near((double)v, e, tol * std::max(1.0, std::fabs(e)), "member accumulate all"); }
   if constexpr(STATE) { std::vector<L> s(7, 9); T v = 77; double e = accRef(acc, x.t.v); opengm::accumulate<ACC>(p, v, s); c.near((double)v, e, tol, "value with state"); c.eq(s.size(), x.vi.size(), "size of the state"); bool ok = true; for(size_t i = 0; i < s.size(); ++i) ok = ok && (size_t)s[i] < x.t.sh[i]; c.check(ok, "labels of the state"); c.near(x.t.at(Co(s.begin(), s.end())), e, 0, "value of the returned labels");
      std::vector<L> s2(1, 9); opengm::accumulate<ACC>(f, v, s2); c.near((double)v, e, tol, "value with state (model factor)"); c.eq(s2.size(), x.vi.size(), "size of the state"); if(s2.size() == x.vi.size()) c.near(x.t.at(Co(s2.begin(), s2.end())), e, 0, "value of the returned labels (model factor)"); std::vector<L> s3; p.template accumulate<ACC>(v, s3); c.eq(s3.size(), x.vi.size(), "size of the state"); if(s3.size() == x.vi.size()) c.near(x.t.at(Co(s3.begin(), s3.end())), e, 0, "value of the returned labels (member)"); }
   // some variables, also ones that the factor does not have, in any order
   unsigned mo = c.pick(MASKS); const int bits = __builtin_popcount(mo); int order = bits < 2 ? 0 : bits == 2 ? c.choose(2) : c.choose(4); std::vector<size_t> out; for(size_t i = 0; i < NV; ++i) if(mo >> i & 1) out.push_back(i); if(order == 1) std::reverse(out.begin(), out.end()); if(order == 2) std::swap(out[0], out[1]); if(order == 3) std::rotate(out.begin(), out.begin() + 1, out.end());
   MC_TRACE(c, "accumulator " << acc << " variables " << ma << " accumulate " << mo << " order " << order << " type " << ft << " table " << x.t.str());
   std::vector<size_t> rest; for(size_t v : x.vi) if(!(mo >> v & 1)) rest.push_back(v); RF r = RF::on(rest); r.t.fill([&](const Co& y) { std::vector<double> vals; for(size_t k = 0; k < nv; ++k) { Co z = x.full(x.t.co(k)), w = r.full(y); bool ok = true; for(size_t v : rest) ok = ok && z[v] == w[v]; if(ok) vals.push_back(x.t.v[k]); } return accRef(acc, vals); });
   if(acc == 5) tol = 1e-9;
   { IF o; opengm::accumulate<ACC>(p, out.begin(), out.end(), o); same(c, o, r, "accumulate some", tol); IF u(p); u += (T)1; opengm::accumulate<ACC>(f, out.begin(), out.end(), u); same(c, u, r, "accumulate some (model factor, into a used factor)", tol); IF m; p.template accumulate<ACC>(out.begin(), out.end(), m); same(c, m, r, "member accumulate some", tol); same(c, p, x, "accumulated factor"); IF w(p); w.template accumulate<ACC>(out.begin(), out.end()); same(c, w, r, "accumulate in place", tol); IF w2(p); opengm::accumulate<ACC>(w2, out.begin(), out.end()); same(c, w2, r, "free accumulate in place", tol); }
   c.state(mc::mix(r.t.hash(), acc));
}
