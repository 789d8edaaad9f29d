#ifndef C15_MOVES_HXX
#define C15_MOVES_HXX
#include "models.hxx"
#include <opengm/inference/movemaker.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>

// one operation of the move maker, mirrored on the reference state
struct MoveOp { int kind; std::vector<size_t> v; std::vector<size_t> l; };   // 0 trial, 1 move, 2 optimal, 3 optimal all changing, 4 reset, 5 initialise, 6 proposal by inference
template<class GM, class ACC> struct Moves {
   typedef opengm::Movemaker<GM> MM; typedef typename GM::LabelType L;
   static const bool mult = IsMult<typename GM::OperatorType>::value, max = IsMax<ACC>::value;
   static bool better(double a, double b) { return max ? a > b : a < b; }
   // value of the factors touching the variables
   static double local(const RefModel& r, const std::vector<int>& s, const std::vector<size_t>& v) {
      double e = mult ? 1 : 0; for(size_t f = 0; f < r.f.size(); ++f) { bool t = false; for(int x : r.f[f].v) for(size_t y : v) t = t || (size_t)x == y; if(t) { double q = r.factorValue((int)f, s); if(mult) e *= q; else e += q; } } return e;
   }
   static void observe(mc::Ctx& c, const RefModel& r, const GM& gm, const MM& m, const std::vector<int>& s) {
      for(size_t i = 0; i < s.size(); ++i) c.eq((int)m.state(i), s[i], "state of a variable");
      c.eq((size_t)(m.stateEnd() - m.stateBegin()), s.size(), "state range"); size_t i = 0; for(auto it = m.stateBegin(); it != m.stateEnd(); ++it, ++i) c.eq((int)*it, s[i], "state by iterator");
      double e = r.eval(s, mult); c.near((double)m.value(), e, 1e-9 * (1 + std::fabs(e)), "value is the value of the state"); c.near((double)gm.evaluate(m.stateBegin()), e, 1e-9 * (1 + std::fabs(e)), "model value of the state");
   }
   static void apply(mc::Ctx& c, const RefModel& r, const GM& gm, MM& m, std::vector<int>& s, const MoveOp& o) {
      MC_TRACE(c, "op " << o.kind << " variables " << show(o.v) << " labels " << show(o.l) << " at " << show(s)); c.step();
      const double tol = 1e-9 * (1 + std::fabs(r.eval(s, mult)));
      switch(o.kind) {
      case 0: { std::vector<int> t = s; for(size_t i = 0; i < o.v.size(); ++i) t[o.v[i]] = (int)o.l[i]; double e = r.eval(t, mult); c.near((double)m.valueAfterMove(o.v.begin(), o.v.end(), o.l.begin()), e, 1e-9 * (1 + std::fabs(e)) + tol, "value of a trial move"); break; }
      case 1: { for(size_t i = 0; i < o.v.size(); ++i) s[o.v[i]] = (int)o.l[i]; double e = r.eval(s, mult); c.near((double)m.move(o.v.begin(), o.v.end(), o.l.begin()), e, 1e-9 * (1 + std::fabs(e)) + tol, "value of a move"); break; }
      case 2: case 3: {
         double before = local(r, s, o.v), best = before; std::vector<int> t = s; bool possible = true;
         for(size_t x : o.v) { t[x] = 0; possible = possible && (o.kind == 2 || r.L[x] > 1); }
         if(possible) for(bool more = true; more;) {
            bool ok = true; if(o.kind == 3) for(size_t x : o.v) ok = ok && t[x] != s[x];
            if(ok) { double e = local(r, t, o.v); if(better(e, best)) best = e; }
            more = false; for(size_t x : o.v) { if(++t[x] < r.L[x]) { more = true; break; } t[x] = 0; }
         }
         double g = o.kind == 2 ? m.template moveOptimally<ACC>(o.v.begin(), o.v.end()) : m.template moveOptimallyWithAllLabelsChanging<ACC>(o.v.begin(), o.v.end());
         std::vector<int> n(m.stateBegin(), m.stateEnd()); c.check(validLabeling(r, n), "state after an optimal move is in range");
         for(size_t i = 0; i < n.size(); ++i) if(std::find(o.v.begin(), o.v.end(), i) == o.v.end()) c.eq(n[i], s[i], "an optimal move leaves other variables alone");
         double after = local(r, n, o.v); c.near(after, best, 1e-9 * (1 + std::fabs(best)), "an optimal move reaches the best value");
         if(!better(best, before)) c.check(n == s, "without improvement the state stays"); else if(o.kind == 3) for(size_t x : o.v) c.check(n[x] != s[x], "all labels change");
         s = n; double e = r.eval(s, mult); c.near(g, e, 1e-9 * (1 + std::fabs(e)) + tol, "returned value of an optimal move"); break;
      }
      case 4: m.reset(); std::fill(s.begin(), s.end(), 0); break;
      case 5: { std::vector<L> x(o.l.begin(), o.l.end()); m.initialize(x.begin()); s = toInt(o.l); break; }
      case 6: {
         std::vector<L> out(o.v.size());
         typedef opengm::Bruteforce<typename MM::SubGmType, ACC> B; typename B::Parameter p;
         std::vector<int> before = s; m.template proposeMoveAccordingToInference<B, typename B::Parameter, std::vector<size_t>::const_iterator, typename std::vector<L>::iterator>(p, o.v.begin(), o.v.end(), out);
         c.eq(out.size(), o.v.size(), "size of a proposal"); double best = 0; bool first = true; std::vector<int> t = s; for(size_t x : o.v) t[x] = 0;
         for(bool more = true; more;) { double e = local(r, t, o.v); if(first || better(e, best)) best = e; first = false; more = false; for(size_t x : o.v) { if(++t[x] < r.L[x]) { more = true; break; } t[x] = 0; } }
         t = s; for(size_t i = 0; i < o.v.size(); ++i) { c.check((int)out[i] < r.L[o.v[i]], "proposal in range"); t[o.v[i]] = (int)out[i]; }
         c.near(local(r, t, o.v), best, 1e-9 * (1 + std::fabs(best)), "proposal is best given the other variables"); break;
      }
      }
      observe(c, r, gm, m, s);
   }
   static MoveOp choose(mc::Ctx& c, const RefModel& r, const std::vector<int>& kinds, bool order) {
      MoveOp o; o.kind = c.pick(kinds); const int n = (int)r.L.size();
      if(o.kind == 4) return o;
      if(o.kind == 5) { for(int l : r.L) o.l.push_back(c.choose(l)); return o; }
      int mask = c.range(o.kind == 6 ? 1 : 0, (1 << n) - 1); for(int i = 0; i < n; ++i) if(mask >> i & 1) o.v.push_back(i);
      if(o.kind != 6 && order && o.v.size() > 1 && c.flip()) std::reverse(o.v.begin(), o.v.end());
      if(o.kind <= 1) for(size_t x : o.v) o.l.push_back(c.choose(r.L[x]));
      return o;
   }
   static void sequence(mc::Ctx& c, const RefModel& r, int depth, const std::vector<int>& kinds, bool order) {
      GM gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str());
      std::vector<int> s(r.L.size(), 0);
      std::vector<L> x; if(c.flip()) { for(size_t i = 0; i < s.size(); ++i) { s[i] = c.choose(r.L[i]); x.push_back(s[i]); } }
      MM m = x.empty() ? MM(gm) : MM(gm, x.begin()); observe(c, r, gm, m, s);
      for(int d = 0; d < depth; ++d) { MoveOp o = choose(c, r, kinds, order); apply(c, r, gm, m, s, o); uint64_t h = r.hash(); for(int y : s) h = mc::mix(h, y); c.state(mc::mix(h, d)); }
      // a trial leaves no trace: every single variable trial from the final state
      for(size_t v = 0; v < s.size(); ++v) for(int l = 0; l < r.L[v]; ++l) { std::vector<int> t = s; t[v] = l; size_t i[1] = {v}, k[1] = {(size_t)l}; double e = r.eval(t, mult); c.near((double)m.valueAfterMove(i, i + 1, k), e, 1e-8 * (1 + std::fabs(e)), "value of a final trial move"); }
      std::vector<size_t> none; c.near((double)m.valueAfterMove(none.begin(), none.end(), none.begin()), r.eval(s, mult), 1e-8 * (1 + std::fabs(r.eval(s, mult))), "value without a move");
      uint64_t h = mc::bitsOf(r.eval(s, mult)); for(int y : s) h = mc::mix(h, y); c.outcome(h);
   }
};
inline RefModel moveModel(int q) {
   static const Scopes st[] = {{{0}, {1}, {0, 1}, {1, 2}}, {{0, 1, 2}, {2}, {}}, {{0, 2}, {0, 2}, {1}, {0, 1, 2}}, {{0, 1}, {2}}, {{0, 1}, {1, 2}, {0, 2}, {0}}, {{1, 2}}};
   static const int L[][3] = {{2, 3, 2}, {3, 2, 2}, {2, 1, 3}, {2, 2, 2}, {2, 2, 3}, {1, 2, 3}};
   return fixedModel(std::vector<int>(L[q], L[q] + 3), st[q]);
}
template<class GM, class ACC> void moveScenario(mc::Ctx& c, int models, int depth, const std::vector<int>& kinds, bool order, double positive, bool zeros) {
   RefModel r = moveModel(c.choose(models)); int p = c.choose(zeros ? 3 : 2);
   for(size_t i = 0; i < r.f.size(); ++i) { if(p == 2) { fillPattern(r, (int)i, 2); continue; } fillPattern(r, (int)i, p); if(positive) for(double& x : r.f[i].t) x += positive; }
   Moves<GM, ACC>::sequence(c, r, depth, kinds, order);
}
#endif
