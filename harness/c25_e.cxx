// FLAGS: -O1
// Solvers that fuse: short histories of the solver object; what visitors record; settings that survive a change of the model type.
#include "c25_life.hxx"
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/integrator.hxx>
#include <opengm/inference/icm.hxx>
#include <opengm/inference/lazyflipper.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/self_fusion.hxx>
#include <opengm/inference/fusion_based_inf.hxx>
typedef GmOf<double, opengm::Adder>::type Sum;
static RefModel small(mc::Ctx& c) { int n = 1 + c.choose(3), k = c.choose(3); return anyModel(c, n, n < 3 ? std::vector<int>{2, 1, 3} : std::vector<int>{2}, k, n == 3 ? 1 : 0, 2, 1 + (n < 3)); }
template<class ACC, class GEN> void fused(mc::Ctx& c, const typename GEN::Parameter& gp) {
   typedef opengm::FusionBasedInf<Sum, GEN> S; RefModel r = small(c); Sum gm; build(gm, r); size_t its = 1 + c.choose(c.tier(2, 3)) * 3, stop = c.choose(2);
   life<S>(c, r, gm, typename S::Parameter(gp, typename S::FusionParameter(S::FusionMoverType::LazyFlipperFusion, 1 + c.choose(2)), its, stop), START | MONO | MOVER | HISTORY, {1, 2});
}
MC_SCENARIO("fusion") {
   using namespace opengm::proposal_gen; typedef opengm::Minimizer A; typedef opengm::Maximizer B;
   switch(c.choose(4)) { case 0: fused<A, AlphaExpansionGen<Sum, A> >(c, AlphaExpansionGen<Sum, A>::Parameter()); break; case 1: fused<A, AlphaBetaSwapGen<Sum, A> >(c, AlphaBetaSwapGen<Sum, A>::Parameter()); break;
   case 2: fused<A, UpDownGen<Sum, A> >(c, UpDownGen<Sum, A>::Parameter(c.flip() ? "up" : "down")); break; case 3: fused<B, AlphaExpansionGen<Sum, B> >(c, AlphaExpansionGen<Sum, B>::Parameter()); }
}
template<class INF> void selfFused(mc::Ctx& c, const typename INF::Parameter& ip) { typedef opengm::SelfFusion<INF> S; RefModel r = small(c); Sum gm; build(gm, r); typename S::Parameter p(1 + c.choose(2), S::LazyFlipperFusion, ip, 1 + c.choose(2)); life<S>(c, r, gm, p, START | MONO | MOVER, {1, 2}); }
MC_SCENARIO("self fusion") {
   typedef opengm::Minimizer A; typedef opengm::MessagePassing<Sum, A, opengm::BeliefPropagationUpdateRules<Sum, A>, opengm::MaxDistance> BP; typedef opengm::LazyFlipper<Sum, A> LF; typedef opengm::ICM<Sum, A> IC;
   switch(c.choose(3)) { case 0: selfFused<BP>(c, BP::Parameter((size_t)3)); break; case 1: selfFused<LF>(c, LF::Parameter((size_t)2)); break; default: selfFused<IC>(c, IC::Parameter()); }
}
// what TimingVisitor records, for any short history of visits and logs
struct Fake { typedef double ValueType; double v, b; double value() const { return v; } double bound() const { return b; } };
MC_SCENARIO("recorded visits") {
   typedef opengm::visitors::TimingVisitor<Fake> V; const size_t nth = 1 + c.choose(3), mem = c.choose(3); const double gap = c.choose(3) - 1.0; const int late = c.choose(3);
   V v(nth, c.choose(2), false, c.flip(), late == 2 ? -1.0 : std::numeric_limits<double>::infinity(), gap, mem); Fake f; f.v = 5; f.b = -4;
   std::vector<double> val, bnd, it; std::map<std::string, std::vector<double> > logs; const double none = std::numeric_limits<double>::quiet_NaN(); bool rec = false; int t = 0;
   auto add = [&](const char* n) { if(!logs.count(n)) logs[n].assign(val.size(), none); v.addLog(n); MC_TRACE(c, "add log " << n); };
   auto entry = [&](int i) { val.push_back(f.v); bnd.push_back(f.b); it.push_back(i); for(auto& l : logs) l.second.push_back(none); rec = true; };
   auto log = [&](const char* n, double x) { v.log(n, x); if(rec) logs[n].back() = x; MC_TRACE(c, "log " << n << " " << x); };
   int when = c.choose(3); if(when == 0) add("a"); v.begin(f); entry(0); if(when == 1) add("a"); if(c.flip()) { if(when == 2) add("a"); log("a", 100); }
   int n = c.choose(c.tier(5, 7)); 
   for(int i = 1; i <= n; ++i) {
      f.v -= 1; f.b += 1; size_t flag = v(f), want = opengm::visitors::VisitorReturnFlag::ContinueInf; rec = i % (int)nth == 0;
      if(rec) { entry(i); if(std::fabs(f.v - f.b) <= gap) want = opengm::visitors::VisitorReturnFlag::StopInfBoundReached; else if(late == 2) want = opengm::visitors::VisitorReturnFlag::StopInfTimeout; }
      MC_TRACE(c, "visit " << i << " gives " << flag); c.eq((int)flag, (int)want, "visitor asks to stop exactly when a limit is reached"); t = i;
      int l = c.choose(3); if(l && !logs.count("a")) add("a"); if(l) log("a", i); if(l == 2) { if(!logs.count("b")) add("b"); log("b", -i); }
      if(flag) break; t = i + 1;
   }
   if(n == 0) t = 1; v.end(f); entry(t); c.step();
   auto sameAs = [&](const std::vector<double>& a, const std::vector<double>& b, const char* what) { bool ok = a.size() == b.size(); for(size_t i = 0; ok && i < a.size(); ++i) ok = a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]); if(!ok) { MC_TRACE(c, what << " " << show(a) << " expected " << show(b)); c.fail(what); } };
   sameAs(v.getValues(), val, "recorded values"); sameAs(v.getBounds(), bnd, "recorded bounds"); sameAs(v.getIterations(), it, "recorded iterations"); c.eq(v.getTimes().size(), val.size(), "a time for each entry"); c.eq(v.getConstructionTime().size(), (size_t)1, "one construction time");
   for(size_t i = 1; i < v.getTimes().size(); ++i) c.check(v.getTimes()[i] >= v.getTimes()[i - 1], "recorded times do not decrease");
   for(auto& l : logs) { c.check(v.protocolMap().count(l.first) == 1, "a log is kept"); sameAs(v.protocolMap().find(l.first)->second, l.second, "recorded log"); }
   c.eq(v.protocolMap().count("mem"), (size_t)(mem ? 1 : 0), "memory is recorded on request"); if(mem) c.eq(v.protocolMap().find("mem")->second.size(), val.size(), "a memory entry for each entry"); c.outcome(val.size() * 31 + logs.size());
}
