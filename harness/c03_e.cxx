// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c03_values.hxx"
// generalised Potts functions of different orders alive at the same time, in every order of creation and use
MC_SCENARIO("pottsg/several_orders") {
   typedef Fn<double, size_t, size_t>::PG PG; static const int D[3] = {5, 6, 7}; int k = 3; std::vector<PG> f; std::vector<int> d; int n = c.tier(2, 3);
   for(int i = 0; i < n; ++i) { int o = D[c.choose(c.tier(2, k))]; Co sh(o, 2); std::vector<double> v(partitionNumbers(o).size()); for(size_t j = 0; j < v.size(); ++j) v[j] = (double)j; f.push_back(PG(sh.begin(), sh.end(), v.begin())); d.push_back(o); MC_TRACE(c, "order " << o); }
   for(int q = 0; q < n; ++q) { int i = c.choose(n); const std::vector<size_t>& P0 = partitionNumbers(d[i]); Tab t(Co(d[i], 2)); t.fill([&](const Co& x) { return (double)(std::lower_bound(P0.begin(), P0.end(), pairNumber(x)) - P0.begin()); }); values(c, f[i], t, 0);
      size_t j = c.choose(4) * 13; f[i].setByPartition(P0[j], -1); t.fill([&](const Co& x) { size_t m = std::lower_bound(P0.begin(), P0.end(), pairNumber(x)) - P0.begin(); return m == j ? -1. : (double)m; }); for(size_t a = 0; a < t.v.size(); ++a) { Co x = t.co(a); c.eq(f[i](x.begin()), t.v[a], "value after setByPartition"); } f[i].setByPartition(P0[j], (double)j); c.state(mc::mix(mc::mix(d[i], i), j)); }
}
MC_SCENARIO("set_one_value") {
   typedef Fn<double, size_t, size_t> N; int fam = c.choose(4); MC_TRACE(c, "family " << fam);
   if(fam == 0) { Tab t(shapeUpTo(c, 1, 4)); for(size_t k = 0; k < t.v.size(); ++k) t.v[k] = (double)k; N::E f = N::explicitOf(t); for(int i = 0; i < 2; ++i) { int k = c.choose((int)t.v.size()); t.v[k] = 50 + i; Co x = t.co(k); f(x.begin()) = 50 + i; values(c, f, t, 0); } c.state(t.hash()); }
   if(fam == 1) { Tab t(c.pick(S2)); t.fill([](const Co& x) { return x[0] == x[1] ? 1. : 2.; }); N::P f(t.sh[0], t.sh[1], 1, 2); int w = c.choose(2); f.parameter(w) = 7; t.fill([&](const Co& x) { return x[0] == x[1] ? (w == 0 ? 7. : 1.) : (w == 1 ? 7. : 2.); }); values(c, f, t, 0); c.eq(f.valueEqual(), w == 0 ? 7. : 1., "valueEqual"); c.eq(f.valueNotEqual(), w == 1 ? 7. : 2., "valueNotEqual"); c.eq(((const N::P&)f).parameter(w), 7., "parameter"); c.state(t.hash()); }
   if(fam == 2) { int d = c.range(2, 6); Tab t(Co(d, d <= 4 ? d : 2)); int k = c.choose((int)t.v.size()); N::PG f(t.sh.begin(), t.sh.end()); size_t p = pairNumber(t.co(k)); if(c.flip()) f.setByPartition(p, 3); else { Co x = t.co(k); f.setByLabel(x.begin(), 3); } t.fill([&](const Co& x) { return pairNumber(x) == p ? 3. : 0.; }); values(c, f, t, 0); c.state(t.hash()); }
   if(fam == 3) { Tab t(shapeUpTo(c, 1, 3)); N::S f(t.sh.begin(), t.sh.end(), 0); Co x = t.co(c.choose((int)t.v.size())), y = t.co(c.choose((int)t.v.size())); f.insert(x.begin(), 2); t.at(x) = 2; f.container()[f.coordinateToKey(y.begin())] = 4; t.at(y) = 4; values(c, f, t, 0); c.eq(f.defaultValue(), 0., "default value"); f.container().erase(f.coordinateToKey(y.begin())); t.at(y) = 0; values(c, f, t, 0); c.state(t.hash()); }
}
MC_SCENARIO("dynamic_single_site/histories") {
   typedef opengm::DynamicSingleSiteFunction<double> D; std::vector<D> f; std::vector<std::vector<double> > r; int n = c.tier(4, 5);
   for(int i = 0; i < 2; ++i) { int s = c.choose(3); if(c.flip()) { f.push_back(D(s, 4)); r.push_back(std::vector<double>(s, 4)); } else { f.push_back(D(s)); for(int k = 0; k < s; ++k) f.back()[k] = k; r.push_back(std::vector<double>()); for(int k = 0; k < s; ++k) r.back().push_back(k); } }
   for(int k = 0; k < n; ++k) {
      int o = c.choose(4), i = c.choose(2); MC_TRACE(c, "op " << o << " on " << i);
      if(o == 0) { f[i] = f[1 - i]; r[i] = r[1 - i]; }
      if(o == 1) { int s = c.choose(3); f[i].assign(s, 9.); r[i].assign(s, 9.); }
      if(o == 2) { int s = c.choose(3); f[i].assign(s); r[i].assign(s, 0); for(int q = 0; q < s; ++q) { f[i][q] = q + 20; r[i][q] = q + 20; } }
      if(o == 3) { if(r[i].empty()) c.prune(); int s = c.choose((int)r[i].size()); size_t x[1] = {(size_t)s}; f[i](x) = 30 + k; r[i][s] = 30 + k; }
      mc::u64 h = 0; for(int j = 0; j < 2; ++j) { Tab t(Co(1, r[j].size())); t.v = r[j]; values(c, f[j], t, 0); h = mc::mix(h, t.hash()); } c.state(h);
   }
}
MC_SCENARIO("unary_loss") {
   typedef opengm::UnaryLossFunction<double, size_t, size_t> U; int n = c.range(1, 4), gt = c.choose(n), ty = c.choose(6); double m = c.pick(VALS); U::SharedMultiplers sm; size_t sh[2] = {(size_t)n, (size_t)n}; bool mat = ty == 3;
   sm.labelMult_ = marray::Marray<double>(sh, sh + (mat ? 2 : 1)); for(int i = 0; i < n; ++i) { if(mat) for(int j = 0; j < n; ++j) sm.labelMult_(i, j) = 10 * i + j + 1; else sm.labelMult_(i) = i + 1; }
   static const U::LossType K[6] = {U::HammingLoss, U::LabelVectorConf, U::LabelVectorGt, U::LabelMatrix, U::L1Loss, U::L2Loss}; U f(n, gt, K[ty], m, sm, false); Tab t(Co(1, n));
   t.fill([&](const Co& x) { int l = (int)x[0]; double df = l != gt; return m * (ty == 0 ? -df : ty == 1 ? df * (l + 1) : ty == 2 ? df * (gt + 1) : ty == 3 ? df * (10 * l + gt + 1) : ty == 4 ? std::abs(l - gt) : (double)(l - gt) * (l - gt)); });
   MC_TRACE(c, "loss type " << ty << " " << t.str()); values(c, f, t, 1e-12); c.state(mc::mix(t.hash(), ty));
}
// the built-in field of experts: three 2x2 filters of the FoE image prior, filter e weighted by alpha e
MC_SCENARIO("field_of_experts/default") {
   static const double al[3] = {0.586612685392731, 1.157638405566669, 0.846059486257292}, ex[3][4] = {{-0.0582774013402734, 0.0339010363051084, -0.0501593018104054, 0.0745568557931712}, {0.0492112815304123, -0.0307820846538285, -0.123247230948424, 0.104812330861557}, {0.0562633568728865, 0.0152832583489560, -0.0576215592718086, -0.0139673758425540}};
   opengm::FoEFunction<double, size_t, size_t> f; f.setDefault(); size_t x[4]; for(int i = 0; i < 4; ++i) x[i] = c.pick(std::vector<size_t>{0, 1, 100, 255}); double r = 0; for(int e = 0; e < 3; ++e) { double d = 0; for(int j = 0; j < 4; ++j) d += ex[e][j] * (double)x[j]; r += al[e] * std::log(1 + 0.5 * d * d); }
   c.near(f(x), r, 1e-9, "default field of experts"); c.eq((size_t)f.dimension(), (size_t)4, "order"); c.eq((size_t)f.shape(2), (size_t)256, "labels"); c.state(mc::mix(mc::mix(x[0], x[1]), mc::mix(x[2], x[3])));
}
