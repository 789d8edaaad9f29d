// pairs of functions of one type: equal iff the shapes and all values agree
template<class A, class B, bool SAME> struct Eq { static void go(Ctx&, const A&, const Tab&, const B&, const Tab&) {} };
template<class A> struct Eq<A, A, true> { static void go(Ctx& c, const A& f, const Tab& t, const A& g, const Tab& u) { bool same = t.sh == u.sh && t.v == u.v; if(same && t.v.size() == 1) return; /* a Potts function of a single labeling has a value that never occurs */ c.eq((bool)(f == g), same, "f == g"); c.eq((bool)(g == f), same, "g == f"); c.state(mc::mix(t.hash(), u.hash())); } };
template<class B> static void smallTables(Ctx& c, bool sparse, B b) {
   typedef Fn<double, size_t, size_t> N; Tab t(c.pick(std::vector<Co>{{2}, {3}, {1, 2}, {2, 1}, {2, 2}, {2, 2, 1}})); static const double W[3] = {0, 1, -2}; for(double& x : t.v) x = W[c.choose(c.tier(t.v.size() == 4 ? 2 : 3, 3))];
   if(sparse) { double d = c.flip() ? 1 : 0; N::S f(t.sh.begin(), t.sh.end(), d); bool all = c.flip(); for(size_t k = 0; k < t.v.size(); ++k) if(all || t.v[k] != d) { Co x = t.co(k); f.insert(x.begin(), t.v[k]); } MC_TRACE(c, "sparse " << t.str() << " default " << d); b(f, t); }
   else { MC_TRACE(c, "explicit " << t.str()); b(N::explicitOf(t), t); }
}
static void equality(Ctx& c, int fam) {
   if(fam < 2) { if(fam == 0) smallTables(c, false, [&](const auto& f, const Tab& t) { smallTables(c, false, [&](const auto& g, const Tab& u) { typedef typename std::decay<decltype(f)>::type A; typedef typename std::decay<decltype(g)>::type B; Eq<A, B, std::is_same<A, B>::value>::go(c, f, t, g, u); }); });
      else smallTables(c, true, [&](const auto& f, const Tab& t) { smallTables(c, true, [&](const auto& g, const Tab& u) { typedef typename std::decay<decltype(f)>::type A; typedef typename std::decay<decltype(g)>::type B; Eq<A, B, std::is_same<A, B>::value>::go(c, f, t, g, u); }); }); return; }
   family<double, size_t, size_t>(c, fam, 2, c.tier(2, 3), [&](const auto& f, const Tab& t) {
      typedef typename std::decay<decltype(f)>::type A; if(t.v.size() > 6 && !c.thorough) c.prune();
      family<double, size_t, size_t>(c, fam, 2, c.tier(2, 3), [&](const auto& g, const Tab& u) { typedef typename std::decay<decltype(g)>::type B; if(u.v.size() > 6 && !c.thorough) c.prune(); Eq<A, B, std::is_same<A, B>::value>::go(c, f, t, g, u); });
   });
}
