// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c14_local.hxx"
#include "ladder.hxx"
typedef GmOf<double, opengm::Adder>::type GA; typedef GmOf<float, opengm::Adder, unsigned, unsigned char>::type GF;
// larger models: no connected subset of up to k variables improves the labeling; only the factors touching the subset are looked at
static void noBetter(mc::Ctx& c, const RefModel& r, const std::vector<int>& l, int k, bool max) {
   const int n = (int)r.L.size(); std::vector<std::set<int> > nb(n); std::vector<std::vector<int> > at(n); for(size_t i = 0; i < r.f.size(); ++i) for(int x : r.f[i].v) { at[x].push_back((int)i); for(int y : r.f[i].v) if(x != y) nb[x].insert(y); }
   std::set<std::vector<int> > layer; for(int i = 0; i < n; ++i) layer.insert({i});
   for(int size = 1; size <= k; ++size) { std::set<std::vector<int> > next;
      for(auto& v : layer) { std::set<int> fs; for(int x : v) fs.insert(at[x].begin(), at[x].end()); std::vector<int> t = l; double before = 0; for(int f : fs) before += r.factorValue(f, t); for(int x : v) t[x] = 0;
         for(bool more = true; more;) { double e = 0; for(int f : fs) e += r.factorValue(f, t); if(max ? e > before + 1e-4 : e < before - 1e-4) { MC_TRACE(c, "variables " << show(v) << " improve " << show(l) << " to " << show(t)); c.fail("a connected subset of the searched size can still improve the labeling"); } more = false; for(int x : v) { if(++t[x] < r.L[x]) { more = true; break; } t[x] = 0; } }
         if(size < k) for(int x : v) for(int y : nb[x]) if(std::find(v.begin(), v.end(), y) == v.end()) { auto w = v; w.push_back(y); std::sort(w.begin(), w.end()); next.insert(w); } }
      layer.swap(next); }
}
static std::vector<int> someStart(mc::Ctx& c, const RefModel& r) { auto a = someLabelings(r); return a[c.pick(std::vector<int>{0, 1, 3, 4})]; }
template<class GM> struct Swapped { typedef GF type; };
template<> struct Swapped<GF> { typedef GA type; };
template<class GM, class ACC> static void bigIcm(mc::Ctx& c, const RefModel& r) {
   typedef opengm::ICM<GM, ACC> S; const bool max = IsMax<ACC>::value; GM gm; build(gm, r); c.state(r.hash()); const bool factors = c.flip(); std::vector<int> start = someStart(c, r); std::vector<typename GM::LabelType> sp(start.begin(), start.end()); typename S::Parameter p(factors ? S::FACTOR : S::SINGLE_VARIABLE, sp); typedef typename opengm::ICM<typename Swapped<GM>::type, ACC>::Parameter Q; if(c.flip()) { Q q(p); p = typename S::Parameter(q); }   /* by way of the parameter of a solver for another model */ S s(gm, p); c.eq((int)s.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step();
   std::vector<int> l; { std::vector<typename GM::LabelType> x; s.arg(x); c.check(validLabeling(r, x), "labeling is complete and in range"); l = toInt(x); } c.near(s.value(), r.eval(l), 1e-4, "reported value is the value of the labeling"); c.check(max ? r.eval(l) >= r.eval(start) - 1e-4 : r.eval(l) <= r.eval(start) + 1e-4, "labeling is not worse than the start"); noBetter(c, r, l, factors ? 2 : 1, max); c.outcome(mc::bitsOf(r.eval(l)));
}
MC_SCENARIO("ladder/icm") { const int n = ladder(c, c.tier(129, 257)), shape = c.choose(SHAPES); RefModel r = ladderModel(shape, n, c.pick(std::vector<std::vector<int> >{{2}, {2, 3, 1}}), 0, c.flip()); MC_TRACE(c, "shape " << shape << " size " << n); if(c.flip()) bigIcm<GF, opengm::Maximizer>(c, r); else bigIcm<GA, opengm::Minimizer>(c, r); }
MC_SCENARIO("ladder/lazy flipper") {
   const int n = ladder(c, c.tier(65, 129)), shape = c.choose(SHAPES), k = c.range(1, n <= 40 ? 3 : 2), m = c.choose(2); if(shape == STAR && k == 3 && n > 20) c.prune(); RefModel r = ladderModel(shape, n, m ? std::vector<int>{2, 3} : std::vector<int>{2}, c.choose(2), c.flip()); std::vector<int> start = someStart(c, r); MC_TRACE(c, "shape " << shape << " size " << n << " subgraphs " << k);
   typedef opengm::LazyFlipper<GA, opengm::Minimizer> S; GA gm; build(gm, r); c.state(mc::mix(r.hash(), k)); std::vector<size_t> sp(start.begin(), start.end()); S::Parameter p((size_t)k, sp.begin(), sp.end(), c.flip() ? opengm::Tribool(opengm::Tribool::Maybe) : opengm::Tribool(m ? opengm::Tribool::True : opengm::Tribool::False)); S s(gm, p); c.eq((int)s.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step();
   std::vector<size_t> x; s.arg(x); c.check(validLabeling(r, x), "labeling is complete and in range"); std::vector<int> l = toInt(x); c.near(s.value(), r.eval(l), 1e-6, "reported value is the value of the labeling"); c.check(r.eval(l) <= r.eval(start) + 1e-6, "labeling is not worse than the start"); noBetter(c, r, l, k, false); c.outcome(mc::bitsOf(r.eval(l)));
}
