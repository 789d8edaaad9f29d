#ifndef C25_LIFE_HXX
#define C25_LIFE_HXX
#include "models.hxx"
#include <iostream>
#include <limits>
#include <opengm/inference/inference.hxx>
#include <opengm/inference/visitors/visitors.hxx>

struct Quiet { std::streambuf* b; Quiet() : b(std::cout.rdbuf(0)) {} ~Quiet() { std::cout.rdbuf(b); std::cout.clear(); } };

// what a kind of solver promises beyond the contract all solvers share
enum { START = 1, RESET = 2, MONO = 4, EXACT = 8, MAYBE = 16, MOVER = 32, NOBOUND = 64, NOSTOP = 128, WHOLE = 256, HISTORY = 512 };
// START takes starting points, RESET has reset, MONO a further run is never worse, EXACT the result is the optimum,
// MAYBE a stopped run may have no labeling yet, MOVER never worse than the start, NOBOUND the bound refers to something else, NOSTOP may show one more step after a request to stop, HISTORY keeps on proposing where it was, WHOLE promises about quality hold for runs that were not stopped

// records what a solver shows while it runs and asks it to stop at a chosen step
template<class S> struct Watch {
   mc::Ctx& c; double best; bool max, mult, bounds; int stopAt, begins, ends, steps, late; size_t flag;
   Watch(mc::Ctx& c, double best, bool mult, bool max, bool bounds, int stopAt) : c(c), best(best), max(max), mult(mult), bounds(bounds), stopAt(stopAt), begins(0), ends(0), steps(0), late(0), flag(1 + stopAt % 2) {}
   void look(S& s, const char* when) {
      double v = s.value(), b = s.bound(), tol = 1e-7 * (1 + std::fabs(best));
      if(v != v || (max ? v > best + tol : v < best - tol)) { MC_TRACE(c, when << ": value " << v << " optimum " << best); c.fail("a visitor saw a value better than the optimum"); }
      if(bounds && (b != b || (max ? b < best - tol : b > best + tol))) { MC_TRACE(c, when << ": bound " << b << " optimum " << best); c.fail("a visitor saw a bound on the wrong side of the optimum"); }
   }
   void begin(S& s) { c.check(begins == 0 && steps == 0 && ends == 0, "a run begins once, before its first step"); ++begins; look(s, "begin"); }
   size_t operator()(S& s) { c.check(begins == 1 && ends == 0, "steps are between begin and end"); ++steps; if(stopAt && steps > stopAt) ++late; look(s, "step"); return stopAt && steps >= stopAt ? flag : (size_t)opengm::visitors::VisitorReturnFlag::ContinueInf; }
   void end(S& s) { c.check(begins == 1 && ends == 0, "a run ends once"); ++ends; look(s, "end"); }
   void addLog(const std::string&) {}
   void log(const std::string&, double) {}
};

template<class S> auto again(S& s, int) -> decltype(s.reset(), void()) { s.reset(); } template<class S> void again(S&, long) {}
struct Seen { bool has; std::vector<int> l; double v, b; int steps; };
template<class S> Seen look(mc::Ctx& c, const RefModel& r, S& s, int caps, bool stopped, const char* what) {
   typedef typename S::GraphicalModelType GM; const bool mult = IsMult<typename GM::OperatorType>::value, max = IsMax<typename S::AccumulationType>::value;
   Seen o; o.steps = 0; std::vector<typename GM::LabelType> x; int t = (int)s.arg(x); MC_TRACE(c, what << " gives " << show(x) << " status " << t << " value " << s.value() << " bound " << s.bound());
   if(stopped && (caps & MAYBE)) { if(t != (int)opengm::NORMAL) { o.has = false; o.v = s.value(); o.b = s.bound(); return o; } }
   c.eq(t, (int)opengm::NORMAL, "labeling is available"); c.check(validLabeling(r, x), "labeling is complete and in range");
   o.has = true; o.l = toInt(x); o.v = r.eval(o.l, mult); o.b = s.bound(); double tol = 1e-8 * (1 + std::fabs(o.v)), best = r.best(mult, max);
   c.near((double)s.value(), o.v, tol, "reported value is the value of the labeling");
   c.check((caps & NOBOUND) || (o.b == o.b && (max ? o.b >= best - 1e-7 * (1 + std::fabs(best)) : o.b <= best + 1e-7 * (1 + std::fabs(best)))), "bound is on its side of the optimum");
   if((caps & EXACT) && !stopped) c.near(o.v, best, tol, "result is the optimum");
   std::vector<typename GM::LabelType> y; s.arg(y); c.check(x == y, "asking again gives the same labeling");
   c.outcome(mc::mix(mc::bitsOf(o.v), mc::bitsOf(o.b))); return o;
}
inline bool sameNumber(double a, double b) { return a == b || std::fabs(a - b) <= 1e-8 * (1 + std::fabs(a)); }
inline void same(mc::Ctx& c, const Seen& a, const Seen& b, const char* what) { if(a.has != b.has || a.l != b.l || !sameNumber(a.v, b.v) || !sameNumber(a.b, b.b)) { MC_TRACE(c, show(a.l) << " " << a.v << " " << a.b << " but fresh " << show(b.l) << " " << b.v << " " << b.b); c.fail(what); } }

template<class S> int runWatched(mc::Ctx& c, const RefModel& r, S& s, int caps, int stopAt) {
   typedef typename S::GraphicalModelType GM; const bool mult = IsMult<typename GM::OperatorType>::value, max = IsMax<typename S::AccumulationType>::value;
   Watch<S> w(c, r.best(mult, max), mult, max, !(caps & NOBOUND), stopAt); { Quiet q; s.infer(w); } c.step();
   MC_TRACE(c, "steps " << w.steps << " stop at " << stopAt);
   c.eq(w.begins, 1, "begin is shown once"); c.eq(w.ends, 1, "end is shown once"); c.check(w.late <= (caps & NOSTOP ? 1 : 0), "no further step after a request to stop"); return w.steps;
}
template<class S> void runTimed(mc::Ctx& c, S& s, size_t nth, size_t mem, int steps) {
   typedef opengm::visitors::TimingVisitor<S> V; V v(nth, nth, false, false, std::numeric_limits<double>::infinity(), -1.0, mem); { Quiet q; s.infer(v); } c.step();
   const auto& t = v.getTimes(); const auto& x = v.getValues(); const auto& b = v.getBounds(); const auto& it = v.getIterations();
   MC_TRACE(c, "recorded " << t.size() << " entries of every " << nth << " of " << steps);
   c.check(t.size() == x.size() && t.size() == b.size() && t.size() == it.size() && t.size() >= 2, "recorded columns are aligned"); c.eq(v.getConstructionTime().size(), (size_t)1, "construction time is recorded once");
   if(mem) c.eq(v.protocolMap().find("mem")->second.size(), t.size(), "memory column is aligned");
   for(auto& m : v.protocolMap()) if(m.first != "ctime" ) c.eq(m.second.size(), t.size(), "every recorded column is aligned");
   for(size_t i = 1; i < t.size(); ++i) { c.check(t[i] >= t[i - 1], "recorded times do not decrease"); c.check(it[i] > it[i - 1], "recorded iterations increase"); }
   if(steps >= 0) c.eq(t.size(), (size_t)(2 + steps / (int)nth), "every n-th step is recorded");
   for(size_t i = 1; i + 1 < it.size(); ++i) c.check(it[i] == (double)(nth * i), "recorded iteration numbers");
   c.check(sameNumber(x.back(), (double)s.value()), "last recorded value is the result"); c.check(sameNumber(b.back(), (double)s.bound()), "last recorded bound is the result");
}

// one solver object used for any short history, then compared with a new one
template<class S, class P> void life(mc::Ctx& c, const RefModel& r, const typename S::GraphicalModelType& gm, const P& param, int caps, const std::vector<int>& stops) {
   typedef typename S::GraphicalModelType GM; typedef typename GM::LabelType L; const bool mult = IsMult<typename GM::OperatorType>::value, max = IsMax<typename S::AccumulationType>::value;
   c.state(r.hash()); MC_TRACE(c, r.str());
   std::vector<std::vector<L> > starts(2); for(int x : r.L) { starts[0].push_back((L)(x - 1)); starts[1].push_back((L)(x / 2)); }
   auto evalL = [&](const std::vector<L>& x) { return r.eval(toInt(x), mult); };
   auto notWorse = [&](double a, double b, const char* what) { double tol = 1e-8 * (1 + std::fabs(b)); MC_TRACE(c, a << " after " << b); c.check(max ? a >= b - tol : a <= b + tol, what); };
   S s(gm, param); c.check(&s.graphicalModel() == &gm, "solver knows its model");
   std::vector<int> ops; ops.push_back(0); for(int k : stops) ops.push_back(k); if(caps & START) { ops.push_back(-1); ops.push_back(-2); } if(caps & RESET) ops.push_back(-3);
   int n = c.choose((r.L.size() > 1 ? c.tier(1, 2) : 2) + 1); bool ran = false, touched = false; double last = 0; const std::vector<L>* from = 0;
   for(int i = 0; i < n; ++i) {
      int o = c.pick(ops); MC_TRACE(c, "operation " << o);
      if(o >= 0) { runWatched(c, r, s, caps, o); Seen x = look(c, r, s, caps, o > 0, "run"); bool judge = x.has && (o == 0 || !(caps & WHOLE)); if((caps & MONO) && ran && judge) notWorse(x.v, last, "a further run is not worse"); if((caps & MOVER) && from && judge) notWorse(x.v, evalL(*from), "result is not worse than the starting point"); if(x.has) { ran = true; last = x.v; } else ran = false; from = 0; touched = true; }
      else if(o == -3) { again(s, 0); ran = false; touched = false; from = 0; }
      else { s.setStartingPoint(starts[-1 - o].begin()); ran = false; from = &starts[-1 - o]; }
   }
   int f = c.choose(5);   // how the last run is started
   if((f == 1 || f == 2) && !(caps & RESET)) c.prune();
   if((f == 2 || f == 3) && !(caps & START)) c.prune();
   S t(gm, param); bool equal = false;
   if(f == 1 || f == 2) { again(s, 0); equal = true; from = 0; ran = false; }
   if(f == 2 || f == 3) { s.setStartingPoint(starts[0].begin()); t.setStartingPoint(starts[0].begin()); equal = true; from = &starts[0]; ran = false; }
   if(f == 0 && !touched) { if(from) { t.setStartingPoint(from->begin()); } equal = true; }
   if((caps & HISTORY) && touched) equal = false;
   int steps = runWatched(c, r, t, caps, 0); Seen y = look(c, r, t, caps, false, "fresh solver");
   if(f == 4) { if(touched || from) steps = -1; int e = c.choose(3); runTimed(c, s, 1 + e, e, steps); } else { Quiet q; s.infer(); } c.step();
   Seen x = look(c, r, s, caps, false, "last run");
   if((caps & MOVER) && from) notWorse(x.v, evalL(*from), "result is not worse than the starting point");
   if((caps & MONO) && ran) notWorse(x.v, last, "a further run is not worse");
   if(equal) same(c, x, y, f == 0 ? "the first run differs from that of a fresh solver" : f == 3 ? "a run from a new starting point differs from that of a fresh solver" : "a run after reset differs from that of a fresh solver");
   if(caps & EXACT) c.check(sameNumber(x.v, y.v), "a further run of an exact solver gives the optimum again");
}
#endif
