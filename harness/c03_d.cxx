// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c03_values.hxx"
// label counts at and above the limits of narrow label types
MC_SCENARIO("large_label_counts") {
   typedef Fn<double, unsigned, unsigned char> N; typedef Fn<double, size_t, unsigned short> M;
   static const std::vector<Co> Z = {{16, 16}, {200, 3}, {3, 200}, {17, 16}, {255, 2}, {8, 8, 8}, {2, 128}};
   Tab t(c.pick(Z)); int fam = c.choose(10); double e = 2, n = -3; MC_TRACE(c, "family " << fam << " " << t.sh.size() << " variables");
   bool narrow = c.flip(); std::vector<unsigned char> us(t.sh.begin(), t.sh.end());
   auto b = [&](const auto& f, const Tab& t) { values(c, f, t, 0); shapeRange(c, f, t); c.state(mc::mix(t.hash(), fam)); };
   auto diff = [&](bool sq, double tr) { t.fill([&](const Co& x) { double d = std::fabs((double)x[0] - (double)x[1]); if(sq) d *= d; return 2 * std::min(d, tr); }); };
   if(fam >= 3 && t.sh.size() != 2) c.prune(); size_t A = t.sh[0], B = t.sh.size() > 1 ? t.sh[1] : 1;
   switch(fam) {
      case 0: { for(size_t k = 0; k < t.v.size(); ++k) t.v[k] = 5; typename N::S f; if(narrow) f = typename N::S(us.begin(), us.end(), 5); else f = typename N::S(t.sh.begin(), t.sh.end(), 5); for(size_t k = 0; k < t.v.size(); k += 3) { t.v[k] = (double)k; Co x = t.co(k); f.insert(x.begin(), (double)k); } b(f, t); Co y(t.sh.size()); for(size_t k = 0; k < t.v.size(); ++k) { f.keyToCoordinate(f.coordinateToKey(t.co(k).begin()), y.begin()); c.check(y == t.co(k), "keyToCoordinate inverts coordinateToKey"); } break; }
      case 1: t.fill([&](const Co&) { return e; }); if(narrow) b(N::C(us.begin(), us.end(), e), t); else b(M::C(t.sh.begin(), t.sh.end(), e), t); break;
      case 2: t.fill([&](const Co& x) { return allEqual(x) ? e : n; }); if(narrow) b(N::PN(us.begin(), us.end(), e, n), t); else b(M::PN(t.sh.begin(), t.sh.end(), e, n), t); break;
      case 3: { double v[2] = {n, e}; t.fill([&](const Co& x) { return allEqual(x) ? e : n; }); if(narrow) b(N::PG(us.begin(), us.end(), v), t); else b(M::PG(t.sh.begin(), t.sh.end(), v), t); break; }
      case 4: t.fill([&](const Co& x) { return x[0] == x[1] ? e : n; }); if(narrow) b(N::P(A, B, e, n), t); else b(M::P(A, B, e, n), t); break;
      case 5: diff(false, 1e9); if(narrow) b(N::AD(A, B, 2), t); else b(M::AD(A, B, 2), t); break;
      case 6: diff(true, 1e9); if(narrow) b(N::SD(A, B, 2), t); else b(M::SD(A, B, 2), t); break;
      case 7: diff(false, 20); if(narrow) b(N::TAD(A, B, 20, 2), t); else b(M::TAD(A, B, 20, 2), t); break;
      case 8: diff(true, 20); if(narrow) b(N::TSD(A, B, 20, 2), t); else b(M::TSD(A, B, 20, 2), t); break;
      case 9: { for(size_t k = 0; k < t.v.size(); ++k) t.v[k] = (double)k; b(N::explicitOf(t), t); break; }
   }
}
// sparse functions of every order up to the switch's limit and beyond, few non-trivial variables
MC_SCENARIO("sparse/orders_1_to_18") {
   typedef Fn<double, size_t, size_t>::S S; int d = c.range(1, 18), a = c.choose(d), e = c.choose(d); Co sh(d, 1); sh[a] = 3; if(a != e) sh[e] = 2; Tab t(sh); S f(sh.begin(), sh.end(), 1.0); for(double& x : t.v) x = 1;
   for(size_t k = 0; k < t.v.size(); k += 2) { Co x = t.co(k); f.insert(x.begin(), (double)k + 2); t.v[k] = (double)k + 2; } MC_TRACE(c, t.str()); values(c, f, t, 0); c.state(t.hash());
}
