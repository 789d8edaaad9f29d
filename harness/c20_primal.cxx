// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -Wno-deprecated-declarations
// C20: primal bound of relaxed labelings under every short history of updates and queries.
#include "models.hxx"
#include <map>
#include <opengm/inference/auxiliary/primal_lpbound.hxx>
typedef GmOf<double, opengm::Adder>::type GM; typedef std::vector<int> Units;
static double transport(const RefModel& r, size_t i, const Units& a, const Units& b, bool maxi) {   // best integral plan
   auto& f = r.f[i]; const int X = (int)a.size(), Y = (int)b.size(); std::map<Units, double> cur; cur[b] = 0;
   for(int x = 0; x < X; ++x) {
      std::map<Units, double> next;
      for(auto& e : cur) {
         std::function<void(int, int, Units, double)> go = [&](int y, int left, Units rest, double v) {
            if(y == Y) { if(left) return; auto k = next.find(rest); if(k == next.end()) next[rest] = v; else if(maxi ? v > k->second : v < k->second) k->second = v; return; }
            for(int k = 0; k <= left && k <= rest[y]; ++k) { Units q = rest; q[y] -= k; go(y + 1, left - k, q, v + k * f.t[y * X + x]); }
         };
         go(0, a[x], e.first, e.second);
      }
      cur.swap(next);
   }
   return cur.begin()->second;
}
static const int TOTAL = 4;
static Units unitsOf(int labels, int q) {   // the marginal vectors of the menu, all summing to TOTAL
   static const std::vector<std::vector<int> > two = {{4, 0}, {0, 4}, {2, 2}, {1, 3}}, three = {{4, 0, 0}, {0, 0, 4}, {2, 1, 1}, {0, 2, 2}};
   return labels == 1 ? Units(1, 4) : labels == 2 ? two[q] : three[q];
}
template<class ACC> struct Run {
   typedef opengm::PrimalLPBound<GM, ACC> B; mc::Ctx& c; const RefModel& r; B& b; std::vector<Units> u; const bool maxi; bool complete;
   Run(mc::Ctx& c, const RefModel& r, B& b) : c(c), r(r), b(b), u(r.L.size()), maxi(ACC::bop(1, 0)), complete(false) {}
   void set(int v, int q) { u[v] = unitsOf(r.L[v], q); std::vector<double> x; for(int k : u[v]) x.push_back((double)k / TOTAL); b.setVariable(v, x.begin()); complete = true; for(auto& w : u) complete = complete && !w.empty(); }
   double unary(int v) const { double s = 0; for(auto& f : r.f) if(f.v.size() == 1 && f.v[0] == v) for(size_t l = 0; l < u[v].size(); ++l) s += u[v][l] * f.t[l]; return s / TOTAL; }
   double pair(size_t i) const { return transport(r, i, u[r.f[i].v[0]], u[r.f[i].v[1]], maxi) / TOTAL; }
   void variable(int v) { std::vector<double> x(r.L[v], 9); b.getVariable(v, x.begin()); for(int l = 0; l < r.L[v]; ++l) c.near(x[l], (double)u[v][l] / TOTAL, 1e-12, "the variable's marginals are the ones set"); c.near(b.getVariableValue(v), unary(v), 1e-9, "value of a variable"); }
   void factor(size_t i) { c.near(b.getFactorValue(i), pair(i), 1e-6, "value of a pairwise factor is the best over its marginals"); }
   void matrix(size_t i) {
      auto& f = r.f[i]; const int X = r.L[f.v[0]], Y = r.L[f.v[1]]; TransportSolver::MatrixWrapper<double> m(X, Y, 9); double val = b.getFactorVariable(i, m), cost = 0; const double want = pair(i);
      for(int x = 0; x < X; ++x) { double s = 0; for(int y = 0; y < Y; ++y) { c.check(m(x, y) >= -1e-9, "no entry of a factor's marginals is negative"); s += m(x, y); cost += m(x, y) * f.t[y * X + x]; } c.near(s, (double)u[f.v[0]][x] / TOTAL, 1e-9, "the factor's marginals sum to the first variable's"); }
      for(int y = 0; y < Y; ++y) { double s = 0; for(int x = 0; x < X; ++x) s += m(x, y); c.near(s, (double)u[f.v[1]][y] / TOTAL, 1e-9, "the factor's marginals sum to the second variable's"); }
      c.near(val, want, 1e-6, "value returned with a factor's marginals"); c.near(cost, want, 1e-6, "a factor's marginals are the best");
   }
   void total() { double s = 0; for(size_t i = 0; i < r.L.size(); ++i) s += unary((int)i); for(size_t i = 0; i < r.f.size(); ++i) if(r.f[i].v.size() == 2) s += pair(i); double t = b.getTotalValue(); c.near(t, s, 1e-6, "the total is the sum over variables and factors"); c.outcome((uint64_t)(int64_t)(t * 64));
      bool integral = true; std::vector<int> lab; for(auto& w : u) { int k = -1; for(size_t l = 0; l < w.size(); ++l) if(w[l] == TOTAL) k = (int)l; integral = integral && k >= 0; lab.push_back(k); } if(integral) c.near(t, r.eval(lab), 1e-6, "integral marginals have the energy of their labeling"); }
};
template<class ACC> static void history(mc::Ctx& c, const RefModel& r, int steps, int menu) {
   typedef opengm::PrimalLPBound<GM, ACC> B; GM gm; build(gm, r); B b(gm); Run<ACC> run(c, r, b); std::vector<size_t> pw; for(size_t i = 0; i < r.f.size(); ++i) if(r.f[i].v.size() == 2) pw.push_back(i); const int n = (int)r.L.size(), P = (int)pw.size(); MC_TRACE(c, r.str() + (run.maxi ? " max" : " min"));
   for(int v = 0; v < n; ++v) run.set(v, v % 4 == 1 ? 3 : 2);
   uint64_t h = r.hash();
   for(int k = 0; k < steps; ++k) {
      int op = c.choose(n * menu + n + 2 * P + 2); h = mc::mix(h, op); c.state(h); c.step(); MC_TRACE(c, "op " + std::to_string(op));
      if(op < n * menu) run.set(op / menu, op % menu); else if((op -= n * menu) < n) run.variable(op); else if((op -= n) < P) run.factor(pw[op]); else if((op -= P) < P) run.matrix(pw[op]); else if(op == P) run.total(); else b.ResetBuffer();
   }
   for(size_t i : pw) run.matrix(i); run.total(); for(int v = 0; v < n; ++v) run.variable(v);
}
template<class F> static void dummy(F) {}
static RefModel unaries(const std::vector<int>& L, const Scopes& s, int skip, bool first) { Scopes all; if(!first) all = s; for(size_t i = 0; i < L.size(); ++i) if((int)i != skip) all.push_back({(int)i}); if(first) all.insert(all.end(), s.begin(), s.end()); return fixedModel(L, all); }
static void fillUp(mc::Ctx& c, RefModel& r) { int p = c.choose(2), q = c.choose(3); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, r.f[i].v.size() == 1 ? p : q); }
#define HISTORY(r, n, m) do { if(c.flip()) history<opengm::Maximizer>(c, r, n, m); else history<opengm::Minimizer>(c, r, n, m); } while(0)
MC_SCENARIO("primal/pair") { RefModel r = unaries({2, c.range(1, 3)}, {{0, 1}}, c.range(-1, 1), c.flip()); fillUp(c, r); HISTORY(r, c.tier(2, 3), 4); }
MC_SCENARIO("primal/parallel") { RefModel r = unaries({2, 2}, {{0, 1}, {0, 1}}, -1, c.flip()); fillUp(c, r); HISTORY(r, c.tier(3, 4), 2); }
MC_SCENARIO("primal/chain") { RefModel r = unaries({2, 3, 2}, {{0, 1}, {1, 2}}, c.range(-1, 1), true); fillUp(c, r); HISTORY(r, c.tier(2, 3), 3); }
MC_SCENARIO("primal/triangle") { RefModel r = unaries({2, 2, 2}, {{0, 1}, {1, 2}, {0, 2}}, -1, false); fillUp(c, r); HISTORY(r, c.tier(2, 3), 2); }
MC_SCENARIO("primal/every marginal") { RefModel r = unaries({2, 2, 2}, {{0, 1}, {1, 2}, {0, 2}}, -1, true); fillUp(c, r); GM gm; build(gm, r); opengm::PrimalLPBound<GM, opengm::Minimizer> b(gm); Run<opengm::Minimizer> run(c, r, b); for(int v = 0; v < 3; ++v) run.set(v, c.choose(4)); c.state(r.hash()); c.step(); MC_TRACE(c, r.str()); run.total(); for(size_t i = 3; i < 6; ++i) run.matrix(i); }
MC_SCENARIO("primal/refused") {   // what cannot be handled is refused
   int k = c.choose(3); RefModel r = k == 0 ? fixedModel({2, 2}, {{0}, {0}, {0, 1}}) : k == 1 ? fixedModel({2, 2, 2}, {{0}, {0, 1, 2}}) : fixedModel({2, 2}, {{0}, {0, 1}}); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, 0); GM gm; build(gm, r); c.state(k); c.step(); MC_TRACE(c, r.str()); bool thrown = false; typedef opengm::PrimalLPBound<GM, opengm::Minimizer> B;
   try { B b(gm); Run<opengm::Minimizer> run(c, r, b); for(size_t v = 0; v < r.L.size(); ++v) run.set((int)v, 0); if(k == 1) b.getTotalValue(); if(k == 2) b.getFactorValue(0); } catch(std::runtime_error&) { thrown = true; } c.check(thrown, k == 0 ? "two unary factors at a variable are refused" : k == 1 ? "factors of higher order are refused" : "the value of a pairwise factor is refused for other factors");
}
