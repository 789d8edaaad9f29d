// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c15_moves.hxx"
#include "ladder.hxx"
typedef GmOf<double, opengm::Adder>::type GD; typedef GmOf<float, opengm::Adder, unsigned, unsigned char>::type GF;
// larger models and larger sets of variables per move
template<class GM, class ACC> static void big(mc::Ctx& c, const RefModel& r, const std::vector<int>& kinds, int most) {
   GM gm; build(gm, r); c.state(r.hash()); const int n = (int)r.L.size(); typename Moves<GM, ACC>::MM m(gm); std::vector<int> s(n, 0); Moves<GM, ACC>::observe(c, r, gm, m, s);
   const int size = std::min(n, c.range(1, most)), where = c.choose(n > 33 ? 2 : 4); std::vector<size_t> v; for(int i = 0; i < size; ++i) { int x = where == 0 ? i : where == 1 ? n - size + i : where == 2 ? (int)((long)i * n / size) : (n / 2 + i) % n; v.push_back(x); } const int kind = c.pick(kinds); if(c.flip()) std::reverse(v.begin(), v.end()); if(kind == 6) std::sort(v.begin(), v.end());
   for(int step = 0; step < 3; ++step) { MoveOp o; o.kind = step == 1 ? 1 : kind; o.v = v; if(o.kind <= 1) for(size_t x : v) o.l.push_back((x + step) % r.L[x]); Moves<GM, ACC>::apply(c, r, gm, m, s, o); }
   MoveOp o; o.kind = 0; for(int i = 0; i < n; ++i) { o.v.push_back(i); o.l.push_back((i * 3 + 1) % r.L[i]); } Moves<GM, ACC>::apply(c, r, gm, m, s, o); o.kind = 1; Moves<GM, ACC>::apply(c, r, gm, m, s, o); o.kind = 4; Moves<GM, ACC>::apply(c, r, gm, m, s, o); c.outcome(mc::bitsOf(r.eval(s)));
}
MC_SCENARIO("ladder/moves") { const int n = ladder(c, c.tier(65, 129)), shape = c.choose(SHAPES); RefModel r = ladderModel(shape, n, c.thorough || n < 9 ? c.pick(std::vector<std::vector<int> >{{2}, {2, 3, 1}}) : std::vector<int>{2, 3, 1}, c.choose(c.tier(1, 2)), c.flip()); MC_TRACE(c, "shape " << shape << " size " << n); big<GD, opengm::Minimizer>(c, r, {0, 1, 2, 3, 6}, c.tier(8, 10)); }
