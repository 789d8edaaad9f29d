// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -Wno-deprecated-declarations
// C19: every small transportation problem, solved by the real solver and by enumerating every integral plan.
#include "mc.hxx"
#include <map>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/inference/auxiliary/transportationsolver.hxx>
typedef std::vector<int> Units;
struct Problem {
   int X, Y; Units a, b; std::vector<double> cost;   // cost[y * X + x]
   std::string str() const { std::ostringstream o; o << X << "x" << Y << " a="; for(int v : a) o << v << " "; o << "b="; for(int v : b) o << v << " "; o << "cost="; for(double v : cost) o << v << " "; return o.str(); }
   uint64_t hash() const { uint64_t h = X * 16 + Y; for(int v : a) h = mc::mix(h, v); for(int v : b) h = mc::mix(h, v + 50); for(double v : cost) h = mc::mix(h, mc::bitsOf(v)); return h; }
};
// best value over all integral plans (the plan polytope has integral corners)
static double best(const Problem& p, bool maximise) {
   std::map<Units, double> cur; cur[p.b] = 0;
   for(int x = 0; x < p.X; ++x) {
      std::map<Units, double> next;
      for(auto& e : cur) {
         std::function<void(int, int, Units, double)> go = [&](int y, int left, Units rest, double v) {
            if(y == p.Y) { if(left) return; auto i = next.find(rest); if(i == next.end()) next[rest] = v; else if(maximise ? v > i->second : v < i->second) i->second = v; return; }
            for(int k = 0; k <= left && k <= rest[y]; ++k) { Units q = rest; q[y] -= k; go(y + 1, left - k, q, v + k * p.cost[y * p.X + x]); }
         };
         go(0, p.a[x], e.first, e.second);
      }
      cur.swap(next);
   }
   return cur.begin()->second;
}
static Units spread(mc::Ctx& c, int n, int total, bool zeros = true) { Units u(n, 0); for(int i = 0; i + 1 < n; ++i) { u[i] = c.range(zeros ? 0 : 1, total - (zeros ? 0 : n - 1 - i)); total -= u[i]; } u[n - 1] = total; return u; }
template<class T> struct Mat { typedef TransportSolver::MatrixWrapper<T> type; };
template<class ACC, class T> struct Run {
   typedef typename Mat<T>::type M; typedef TransportSolver::TransportationSolver<ACC, M> S;
   static M matrix(const Problem& p) { M m(p.X, p.Y); for(int y = 0; y < p.Y; ++y) for(int x = 0; x < p.X; ++x) m(x, y) = (T)p.cost[y * p.X + x]; return m; }
   // unit: what one unit is as a number (the solver normalises the sums to one)
   static void solve(mc::Ctx& c, S& s, const Problem& p, double unit) {
      const bool maximise = ACC::bop(1, 0); double total = 0; for(int v : p.a) total += v;
      std::vector<T> a, b; for(int v : p.a) a.push_back((T)(v * unit)); for(int v : p.b) b.push_back((T)(v * unit)); c.state(p.hash()); c.step();
      const double eps = sizeof(T) == 4 ? 1e-5 : 1e-10; double value;
      try { value = c.flip() ? s.Solve(a.begin(), b.begin()) : s.Solve(&a[0], &b[0]); } catch(std::exception& e) { c.fail(std::string("a balanced problem was not solved: ") + e.what()); return; }
      M plan(p.X, p.Y, (T)7); const double again = s.GetSolution(&plan); double cost = 0;
      for(int x = 0; x < p.X; ++x) { double sum = 0; for(int y = 0; y < p.Y; ++y) { c.check(plan(x, y) >= -eps, "no entry of the plan is negative"); sum += plan(x, y); cost += plan(x, y) * p.cost[y * p.X + x]; } c.near(sum, p.a[x] / total, eps, "column sums are the requested ones"); }
      for(int y = 0; y < p.Y; ++y) { double sum = 0; for(int x = 0; x < p.X; ++x) sum += plan(x, y); c.near(sum, p.b[y] / total, eps, "row sums are the requested ones"); }
      c.near(value, cost, eps * 10, "the objective returned is the cost of the plan"); c.near(again, cost, eps * 10, "the solution's value is the cost of the plan"); c.near((double)s.GetObjectiveValue(), cost, eps * 10, "the objective is the cost of the plan");
      const double opt = best(p, maximise) / total; c.near(cost, opt, eps * 100, "the plan is optimal"); c.outcome((uint64_t)(int64_t)(opt * 64));
   }
   static void once(mc::Ctx& c, const Problem& p, double unit) { MC_TRACE(c, p.str() + (ACC::bop(1, 0) ? " max" : " min")); M m = matrix(p); if(c.flip()) { S s(p.X, p.Y, m); solve(c, s, p, unit); } else { S s; s.Init(p.X, p.Y, m); solve(c, s, p, unit); } }
};
static Problem problem(mc::Ctx& c, int X, int Y, int total, const std::vector<double>& values, bool zeros = true) { Problem p; p.X = X; p.Y = Y; p.a = spread(c, X, total, zeros); p.b = spread(c, Y, total, zeros); for(int i = 0; i < X * Y; ++i) p.cost.push_back(c.pick(values)); return p; }
typedef opengm::Minimizer Min; typedef opengm::Maximizer Max;
template<class T> static void either(mc::Ctx& c, const Problem& p, double unit) { if(c.flip()) Run<Max, T>::once(c, p, unit); else Run<Min, T>::once(c, p, unit); }
MC_SCENARIO("transport/2x2") { Problem p = problem(c, c.range(1, 2), c.range(1, 2), c.range(1, 7), {-1, 0, 1, 2.5}); either<double>(c, p, c.pick(std::vector<double>{1, 0.1, 1.0 / 3})); }
MC_SCENARIO("transport/line") { bool r = c.flip(); int n = c.range(3, c.tier(4, 5)); Problem p = problem(c, r ? n : 1, r ? 1 : n, c.range(1, 5), {-1, 0, 2}); either<double>(c, p, 0.1); }
MC_SCENARIO("transport/2x3") { bool r = c.flip(); Problem p = problem(c, r ? 3 : 2, r ? 2 : 3, c.range(1, c.tier(4, 6)), {-1, 0, 2}); either<double>(c, p, c.thorough && c.flip() ? 0.1 : 1.0 / 7); }
MC_SCENARIO("transport/3x3") { Problem p = problem(c, 3, 3, c.range(3, c.tier(5, 6)), {0, 1}, false); either<double>(c, p, 0.1); }
MC_SCENARIO("transport/3x3/degenerate") { Problem p; p.X = p.Y = 3; p.a = p.b = Units(3, 1); for(int i = 0; i < 9; ++i) p.cost.push_back(c.choose(c.tier(2, 3)) ); if(c.flip()) p.cost[4] = -3; either<double>(c, p, 1.0 / 3); }
MC_SCENARIO("transport/3x3/costs") { Problem p; p.X = p.Y = 3; static const Units as[] = {{1, 2, 3}, {3, 1, 2}, {2, 2, 2}, {4, 1, 1}}; p.a = as[c.choose(4)]; p.b = as[c.choose(c.tier(2, 4))]; for(int i = 0; i < 9; ++i) p.cost.push_back(c.choose(i < 6 ? 3 : c.tier(2, 3))); either<double>(c, p, 0.1); }
// larger ones over patterned costs
static double pattern(int k, int x, int y) { switch(k) { case 0: return std::abs(x - y); case 1: return (x - y) * (x - y); case 2: return (x * 7 + y * 5) % 11; case 3: return x == y; case 4: return -(x * y) % 5; case 5: return x + y; case 6: return (x * x * 3 + y * 13 + x * y * 5) % 17 * 0.3; default: return 0; } }
MC_SCENARIO("transport/patterns") { int X = c.range(2, 4), Y = c.range(2, 4); Problem p = problem(c, X, Y, c.range(2, c.tier(4, 6)), {0}); int k = c.choose(8); for(int y = 0; y < Y; ++y) for(int x = 0; x < X; ++x) p.cost[y * X + x] = pattern(k, x, y); either<double>(c, p, 0.1); }
MC_SCENARIO("transport/patterns/large") { int X = c.range(4, 6), Y = c.range(4, 6); Problem p; p.X = X; p.Y = Y; for(int x = 0; x < X; ++x) p.a.push_back(1); for(int y = 0; y < Y; ++y) p.b.push_back(1); int d = X - Y; for(; d > 0; --d) p.b[c.choose(Y)]++; for(; d < 0; ++d) p.a[c.choose(X)]++; int k = c.choose(8); for(int y = 0; y < Y; ++y) for(int x = 0; x < X; ++x) p.cost.push_back(pattern(k, x, y)); either<double>(c, p, c.flip() ? 0.1 : 0.3); }
MC_SCENARIO("transport/float") { Problem p = problem(c, c.range(1, 3), c.range(1, 3), c.range(2, 4), {0}); int k = c.choose(8), s = c.choose(3); for(int y = 0; y < p.Y; ++y) for(int x = 0; x < p.X; ++x) p.cost[y * p.X + x] = pattern(k, x + s, y); either<float>(c, p, 0.1); }
// one solver, a sequence of problems; the cost matrix stays while the marginals change or a new matrix is set
static const Problem& menu(int i) {
   static std::vector<Problem> m; if(m.empty()) { static const int sizes[][2] = {{1, 1}, {2, 2}, {3, 2}, {2, 4}, {4, 1}, {3, 3}, {1, 3}, {4, 4}}; for(auto& s : sizes) { Problem p; p.X = s[0]; p.Y = s[1]; for(int y = 0; y < p.Y; ++y) for(int x = 0; x < p.X; ++x) p.cost.push_back(pattern((p.X + p.Y) % 7, x, y) - 1); m.push_back(p); } } return m[i];
}
template<class ACC> static void history(mc::Ctx& c) {
   typedef Run<ACC, double> R; std::vector<typename R::M> ms; for(int i = 0; i < 8; ++i) ms.push_back(R::matrix(menu(i))); int at = c.choose(8); typename R::S* s; typename R::S s0, s1(menu(at).X, menu(at).Y, ms[at]); if(c.flip()) { s = &s0; s0.Init(menu(at).X, menu(at).Y, ms[at]); } else s = &s1;
   for(int k = 0, n = 3; k < n; ++k) {
      if(k) { int q = c.choose(k == 1 || c.thorough ? 9 : 4); if(q) { at = (at + q - 1) % 8; s->Init(menu(at).X, menu(at).Y, ms[at]); } }
      Problem p = menu(at); static const int w[][4] = {{1, 0, 3, 0}, {2, 2, 1, 1}, {0, 4, 0, 1}}; int qa = c.choose(3), qb = c.choose(c.tier(2, 3)); auto fillUnits = [&](Units& u, int n, int q) { u.assign(n, 0); int left = 6; for(int i = 0; i + 1 < n; ++i) { u[i] = std::min(left, w[q][i]); left -= u[i]; } u[n - 1] = left; }; fillUnits(p.a, p.X, qa); fillUnits(p.b, p.Y, qb);
      MC_TRACE(c, p.str()); R::solve(c, *s, p, k == 1 ? 0.1 : 1);
   }
}
MC_SCENARIO("transport/sequence") { if(c.flip()) history<Max>(c); else history<Min>(c); }
MC_SCENARIO("transport/transpose") { typedef TransportSolver::MatrixWrapper<double> M; int X = c.range(1, 5), Y = c.range(1, 5); M m(X, Y), t(c.range(0, 3), c.range(0, 3), 9); for(int y = 0; y < Y; ++y) for(int x = 0; x < X; ++x) m(x, y) = 10 * x + y; c.state(X * 8 + Y); c.step(); MC_TRACE(c, std::to_string(X) + "x" + std::to_string(Y)); TransportSolver::transpose(m, t); c.eq((int)t.xsize(), Y, "the transposed matrix has as many columns as the matrix has rows"); c.eq((int)t.ysize(), X, "the transposed matrix has as many rows as the matrix has columns"); for(int y = 0; y < Y; ++y) for(int x = 0; x < X; ++x) c.eq(t.begin()[x * Y + y], m(x, y), "transposed entry"); }
// the sparse table behind the solver, under every sequence of insertions and removals
MC_SCENARIO("transport/table") {
   typedef TransportSolver::List2D<double> L; const int X = c.range(1, 3), Y = c.range(1, 3), N = X + Y; L l(X, Y, N); std::map<std::pair<int, int>, double> ref; int pushed = 0; bool hole = true; double v = 1;
   for(int k = 0, n = X * Y > 6 ? c.tier(3, 4) : X * Y > 2 ? 4 : c.tier(4, 6); k < n; ++k) {
      int x = c.choose(X), y = c.choose(Y), op = c.choose(6); const bool in = ref.count({x, y}); MC_TRACE(c, std::to_string(op) + " at " + std::to_string(x) + "," + std::to_string(y)); c.step(); v += 1;
      switch(op) {
         case 0: if(in) c.prune(); { bool ok = l.push(x, y, v); if(pushed < N - 1 && k == (int)ref.size()) c.check(ok, "an element can be appended while there is room"); if(ok) { ref[{x, y}] = v; ++pushed; } } break;
         case 1: if(in) c.prune(); { bool ok = l.insert(x, y, v); c.eq(ok, hole, "an element can be inserted exactly when the insertion position is free"); if(ok) { ref[{x, y}] = v; hole = false; } } break;
         case 2: { bool found = false; for(auto i = l.rowBegin(y); i != l.rowEnd(y); ++i) if((int)i.coordinate() == x) { c.check(in, "only inserted elements are found"); if(c.flip()) l.erase(i); else l.erase(i.index()); found = true; break; } c.eq(found, in, "every inserted element is found"); if(!found) c.prune(); ref.erase({x, y}); hole = true; } break;
         case 3: { L m(l); if(c.flip()) l = m; L o(1, 1, 2); o = m; l = o; } break;
         case 4: { bool any = false; for(int q = 0; q < Y; ++q) any = ref.erase({x, q}) || any; if(!any) c.prune(); l.colErase(x); hole = true; } break;
         default: l.clear(); ref.clear(); pushed = 0; hole = true;
      }
      for(int q = 0; q < Y; ++q) { std::vector<int> have, want; for(auto i = l.rowBegin(q); i != l.rowEnd(q); ++i) { have.push_back((int)i.coordinate()); c.eq((int)i.x(), (int)i.coordinate(), "x"); c.eq((int)i.y(), q, "y"); c.check(i.isRowIterator(), "a row iterator knows it"); auto j = i.changeDir(); c.check(!j.isRowIterator() && (int)j.coordinate() == q && *j == *i, "the same element in its column"); } for(auto& e : ref) if(e.first.second == q) want.push_back(e.first.first); std::sort(want.begin(), want.end()); c.check(have == want, "a row holds its elements in order"); c.eq((int)l.rowSize(q), (int)want.size(), "row size"); }
      for(int q = 0; q < X; ++q) { std::vector<int> have, want; for(auto i = l.colBegin(q); i != l.colEnd(q); ++i) have.push_back((int)i.coordinate()); for(auto& e : ref) if(e.first.first == q) want.push_back(e.first.second); c.check(have == want, "a column holds its elements in order"); c.eq((int)l.colSize(q), (int)want.size(), "column size"); }
      uint64_t h = X * 4 + Y; for(int q = 0; q < X; ++q) for(int r = 0; r < Y; ++r) { auto g = l.getValue(q, r); auto i = ref.find({q, r}); c.eq(g.first, i != ref.end(), "an element is there exactly when it was put there"); if(g.first) c.eq(g.second, i->second, "its value is the one put there"); h = h * 3 + g.first; } c.state(h);
   }
}
