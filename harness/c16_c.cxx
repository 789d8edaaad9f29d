// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
// Fusion: every proposal history (scripted proposals), every generator with every random draw, every pair of labelings.
#include "c14_local.hxx"
#include "rand.hxx"
#include <opengm/inference/self_fusion.hxx>
#include <opengm/inference/fusion_based_inf.hxx>
#include <opengm/inference/dynamicprogramming.hxx>
typedef GmOf<double, opengm::Adder>::type GA; typedef GmOf<double, opengm::Multiplier>::type GP; typedef GmOf<float, opengm::Adder, unsigned, unsigned char>::type GF;
static bool worse(bool max, double a, double b) { double t = 1e-6 * (1 + std::fabs(b)); return max ? a < b - t : a > b + t; }
template<class GM> std::vector<typename GM::LabelType> lab(const std::vector<int>& l) { return std::vector<typename GM::LabelType>(l.begin(), l.end()); }
static std::vector<std::vector<int> > script;   // proposals of the scripted generator and solver
static size_t position; static bool visitorStops;
template<class GM, class ACC> struct ScriptedGen {
   typedef ACC AccumulationType; typedef GM GraphicalModelType; OPENGM_GM_TYPE_TYPEDEFS;
   struct Parameter {}; ScriptedGen(const GM&, const Parameter&) {} void reset() {} size_t defaultNumStopIt() { return 100; }
   void getProposal(const std::vector<LabelType>& cur, std::vector<LabelType>& p) { if(position < script.size()) p.assign(script[position].begin(), script[position].end()); else p = cur; ++position; }
};
template<class GM, class ACCU> struct ScriptedInf : public opengm::Inference<GM, ACCU> {
   typedef ACCU AccumulationType; typedef GM GraphicalModelType; OPENGM_GM_TYPE_TYPEDEFS;
   struct Parameter { bool visit; Parameter(bool v = true) : visit(v) {} };
   ScriptedInf(const GM& gm, const Parameter& p = Parameter()) : gm_(gm), p_(p), cur_(gm.numberOfVariables(), 0) {}
   std::string name() const { return "scripted"; } const GM& graphicalModel() const { return gm_; }
   opengm::InferenceTermination infer() { opengm::visitors::EmptyVisitor<ScriptedInf> v; return infer(v); }
   template<class V> opengm::InferenceTermination infer(V& v) { v.begin(*this); for(auto& l : script) { cur_.assign(l.begin(), l.end()); ++position; if(p_.visit && v(*this) != 0) break; } v.end(*this); return opengm::NORMAL; }
   opengm::InferenceTermination arg(std::vector<LabelType>& x, const size_t = 1) const { x = cur_; return opengm::NORMAL; }
   ValueType bound() const { ValueType b; ACCU::ineutral(b); return b; } ValueType value() const { return gm_.evaluate(cur_.begin()); }
   const GM& gm_; Parameter p_; std::vector<LabelType> cur_;
};
static RefModel fusionModel(mc::Ctx& c, int n, int k, bool mult) { RefModel r = anyModel(c, n, {1, 2, 3}, k, 0, 3, 2); if(mult) makePositive(r); return r; }

template<class GM, class ACC, class SOLVER> void mover(mc::Ctx& c, const RefModel& r, const typename SOLVER::Parameter& p, bool warm, bool exact, bool high) {
   typedef typename GM::ValueType T; typedef typename GM::LabelType L; typedef opengm::FusionMover<GM, ACC> M; const bool mult = IsMult<typename GM::OperatorType>::value, max = IsMax<ACC>::value;
   GM gm; build(gm, r); c.state(r.hash()); std::vector<int> a = anyLabeling(c, r), b = anyLabeling(c, r); MC_TRACE(c, r.str() << " fuse " << show(a) << " and " << show(b));
   std::vector<L> la = lab<GM>(a), lb = lab<GM>(b), out(a.size(), 0); T va = gm.evaluate(la.begin()), vb = gm.evaluate(lb.begin()), v = va; int diff = 0; for(size_t i = 0; i < a.size(); ++i) diff += a[i] != b[i];
   if(high) {
      opengm::HlFusionMover<GM, ACC> m(gm, typename opengm::HlFusionMover<GM, ACC>::Parameter(opengm::HlFusionMover<GM, ACC>::LazyFlipperFusion, a.size() + 1)); c.eq(m.fuse(la, lb, out, va, vb, v), diff > 0, "fusion happens exactly when the labelings differ");
   } else { M m(gm); for(int again = 0; again < 2; ++again) { m.setup(la, lb, out, va, vb); c.eq((int)m.numberOfFusionMoveVariable(), diff, "number of variables to fuse"); if(diff) { v = m.template fuse<SOLVER>(p, warm); c.eq(v, m.valueResult(), "the result value is kept"); } if(again) break; } }
   c.step(); c.check(toInt(la) == a && toInt(lb) == b, "the labelings to fuse stay unchanged"); c.check(validLabeling(r, out), "labeling is complete and in range"); std::vector<int> l = toInt(out); MC_TRACE(c, "gives " << show(l));
   for(size_t i = 0; i < a.size(); ++i) c.check(l[i] == a[i] || l[i] == b[i], "each label is one of the two to fuse");
   double e = r.eval(l, mult); c.near((double)v, e, 1e-5 * (1 + std::fabs(e)), "fused value is the value of the fused labeling"); if(!diff) return;
   c.check(!worse(max, e, r.eval(a, mult)) && !worse(max, e, r.eval(b, mult)), "the fusion is not worse than either labeling");
   for(int m = 0; m < 1 << a.size(); ++m) if(exact || __builtin_popcount(m) == 1) { std::vector<int> t = l; for(size_t i = 0; i < a.size(); ++i) if(m >> i & 1) t[i] = exact ? b[i] : l[i] == a[i] ? b[i] : a[i]; else if(exact) t[i] = a[i]; if(!exact || diff) if(worse(max, e, r.eval(t, mult))) { MC_TRACE(c, show(t) << " is better"); c.fail(exact ? "an exact solver finds the best fusion" : "flipping one variable still improves the fusion"); } }
   c.outcome(mc::bitsOf(e));
}
template<class GM, class ACC> void movers(mc::Ctx& c, const RefModel& r) {
   typedef typename opengm::FusionMover<GM, ACC>::SubGmType Sub; typedef opengm::LazyFlipper<Sub, ACC> LF; typedef opengm::Bruteforce<Sub, ACC> BF;
   int how = c.choose(5);
   if(how < 3) mover<GM, ACC, LF>(c, r, typename LF::Parameter((size_t)how + 1), true, false, false);
   else if(how == 3) mover<GM, ACC, BF>(c, r, typename BF::Parameter(), false, true, false);
   else mover<GM, ACC, LF>(c, r, typename LF::Parameter((size_t)1), true, false, true);
}
MC_SCENARIO("fusion/mover/sum") { int n = c.range(1, 3); RefModel r = fusionModel(c, n, c.range(0, c.tier(2, 3)), false); if(!c.thorough && r.size() > 12) c.prune(); if(c.flip()) movers<GA, opengm::Minimizer>(c, r); else movers<GA, opengm::Maximizer>(c, r); }
MC_SCENARIO("fusion/mover/other") { int n = c.range(1, 3); bool f = c.flip(); RefModel r = fusionModel(c, n, c.range(1, 2), !f); if(r.size() > (size_t)c.tier(9, 27)) c.prune(); if(f) movers<GF, opengm::Minimizer>(c, r); else movers<GP, opengm::Maximizer>(c, r); }
MC_SCENARIO("fusion/mover/larger") {
   static const Scopes st[] = {{{0, 1}, {1, 2}, {2, 3}, {0, 3}, {0}}, {{0, 1, 2}, {1, 2, 3}, {3}, {0}}, {{0, 1, 2, 3}, {1, 3}, {2}}, {{0, 2}, {1, 3}, {0}, {1}}};
   RefModel r = fixedModel({2, 3, 2, 3}, st[c.choose(4)]); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, c.choose(c.tier(2, 4))); movers<GA, opengm::Minimizer>(c, r);
}
template<class GM, class ACC, class GEN> std::vector<int> basedOn(mc::Ctx& c, const RefModel& r, const GM& gm, const typename GEN::Parameter& gp, const std::vector<int>& start, bool set, size_t its, size_t stop, size_t size) {
   typedef opengm::FusionBasedInf<GM, GEN> S; const bool mult = IsMult<typename GM::OperatorType>::value, max = IsMax<ACC>::value;
   S s(gm, typename S::Parameter(gp, typename S::FusionParameter(S::FusionMoverType::LazyFlipperFusion, size), its, stop)); auto sp = lab<GM>(start); if(set) s.setStartingPoint(sp.begin());
   c.eq((int)s.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step(); std::vector<typename GM::LabelType> x; c.eq((int)s.arg(x), (int)opengm::NORMAL, "labeling is available"); MC_TRACE(c, "result " << show(toInt(x)));
   c.check(validLabeling(r, x), "labeling is complete and in range"); std::vector<int> l = toInt(x); double e = r.eval(l, mult); c.near((double)s.value(), e, 1e-5 * (1 + std::fabs(e)), "reported value is the value of the labeling");
   if(set) c.check(!worse(max, e, r.eval(start, mult)), "labeling is not worse than the start"); c.outcome(mc::bitsOf(e)); return l;
}
template<class GM, class ACC> void scripted(mc::Ctx& c, const RefModel& r, int len) {
   const bool mult = IsMult<typename GM::OperatorType>::value, max = IsMax<ACC>::value; GM gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str());
   bool set = c.flip(); std::vector<int> start = set ? anyLabeling(c, r) : std::vector<int>(r.L.size(), 0); script.clear(); position = 0; for(int i = 0; i < len; ++i) { script.push_back(anyLabeling(c, r)); MC_TRACE(c, "proposal " << show(script.back())); }
   std::vector<int> l = basedOn<GM, ACC, ScriptedGen<GM, ACC> >(c, r, gm, typename ScriptedGen<GM, ACC>::Parameter(), start, set, len + 1, 0, (size_t)c.range(1, 2));
   c.eq((int)position, len + 1, "all proposals are asked for"); for(auto& p : script) c.check(!worse(max, r.eval(l, mult), r.eval(p, mult)), "labeling is not worse than any proposal");
}
MC_SCENARIO("fusion/proposals/sum") { int n = c.range(1, 3); RefModel r = fusionModel(c, n, c.range(0, 2), false); if(r.size() > (size_t)c.tier(8, 12)) c.prune(); int len = r.size() <= 4 ? 3 : c.tier(1, 2); if(c.flip()) scripted<GA, opengm::Minimizer>(c, r, len); else scripted<GA, opengm::Maximizer>(c, r, len); }
MC_SCENARIO("fusion/proposals/other") { int n = c.range(1, 2); bool f = c.flip(); RefModel r = fusionModel(c, n, c.range(1, 2), !f); if(r.size() > 6) c.prune(); if(f) scripted<GF, opengm::Minimizer>(c, r, 2); else scripted<GP, opengm::Maximizer>(c, r, 2); }

template<class GM, class ACC, class INF> void selfFusion(mc::Ctx& c, const RefModel& r, const typename INF::Parameter& ip, const std::vector<int>& start, bool set, size_t nth, bool visits) {
   typedef opengm::SelfFusion<INF> S; const bool mult = IsMult<typename GM::OperatorType>::value, max = IsMax<ACC>::value; GM gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str() << (set ? " from " : " default start ") << show(start) << " every " << nth);
   typename S::Parameter p(nth, S::LazyFlipperFusion, ip, (size_t)c.range(1, 2)); S s(gm, p); auto sp = lab<GM>(start); if(set) s.setStartingPoint(sp.begin());
   auto run = [&](const char* what) {
      c.eq((int)s.infer(), (int)opengm::NORMAL, "inference succeeds"); c.step(); std::vector<typename GM::LabelType> x; c.eq((int)s.arg(x), (int)opengm::NORMAL, "labeling is available"); MC_TRACE(c, what << " " << show(toInt(x)) << " value " << s.value());
      c.check(validLabeling(r, x), "labeling is complete and in range"); std::vector<int> l = toInt(x); double e = r.eval(l, mult); c.near((double)s.value(), e, 1e-5 * (1 + std::fabs(e)), "reported value is the value of the labeling");
      if(set) c.check(!worse(max, e, r.eval(start, mult)), "labeling is not worse than the start"); c.outcome(mc::bitsOf(e));
      for(size_t i = 0; i < script.size(); ++i) if(i % nth == 0 || (!visits && i + 1 == script.size())) if(visits || i + 1 == script.size()) c.check(!worse(max, e, r.eval(script[i], mult)), "labeling is not worse than a labeling that was fused");
   };
   run("result"); run("second run");
}
template<class GM, class ACC> void selfScripted(mc::Ctx& c, const RefModel& r, int len) {
   bool set = c.flip(); std::vector<int> start = set ? anyLabeling(c, r) : std::vector<int>(r.L.size(), 0); script.clear(); position = 0; for(int i = 0; i < len; ++i) { script.push_back(anyLabeling(c, r)); MC_TRACE(c, "labeling " << show(script.back())); }
   bool visits = c.choose(4) < 3; typedef ScriptedInf<GM, ACC> I; selfFusion<GM, ACC, I>(c, r, typename I::Parameter(visits), start, set, (size_t)c.range(1, 2), visits);
}
MC_SCENARIO("selffusion/labelings/sum") { int n = c.range(1, 3); RefModel r = fusionModel(c, n, c.range(0, 2), false); if(r.size() > (size_t)c.tier(8, 12)) c.prune(); int len = r.size() <= (size_t)c.tier(2, 4) ? 3 : c.tier(r.size() <= 4 ? 2 : 1, 2); if(c.flip()) selfScripted<GA, opengm::Minimizer>(c, r, len); else selfScripted<GA, opengm::Maximizer>(c, r, len); }
MC_SCENARIO("selffusion/labelings/other") { int n = c.range(1, 2); bool f = c.flip(); RefModel r = fusionModel(c, n, c.range(1, 2), !f); if(r.size() > 6) c.prune(); if(f) selfScripted<GF, opengm::Minimizer>(c, r, 2); else selfScripted<GP, opengm::Maximizer>(c, r, 2); }
MC_SCENARIO("selffusion/solvers") {
   int n = c.range(1, 3); RefModel r = anyModel(c, n, {1, 2, 3}, c.range(0, c.tier(2, 3)), 0, 3, 2); script.clear(); int how = c.choose(3); std::vector<int> start(n, 0); bool set = c.flip(); if(set) start = anyLabeling(c, r);
   typedef opengm::MessagePassing<GA, opengm::Minimizer, opengm::BeliefPropagationUpdateRules<GA, opengm::Minimizer>, opengm::MaxDistance> BP; typedef opengm::LazyFlipper<GA, opengm::Minimizer> LF; typedef opengm::ICM<GA, opengm::Minimizer> IC;
   if(how == 0) selfFusion<GA, opengm::Minimizer, BP>(c, r, typename BP::Parameter((size_t)4), start, set, 1, true); else if(how == 1) selfFusion<GA, opengm::Minimizer, LF>(c, r, typename LF::Parameter((size_t)2), start, set, 1, true); else selfFusion<GA, opengm::Minimizer, IC>(c, r, typename IC::Parameter(), start, set, 1, true);
}
// every built-in proposal generator: proposals are labelings, whatever the random source answers
template<class GEN> void generator(mc::Ctx& c, const RefModel& r, const typename GEN::Parameter& gp, int k, const std::vector<int>& values, const char* what) {
   GA gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str() << " " << what); setDraws(c, k, values); MC_TRACE(c, "draws " << show(draws().v)); const int rounds = (int)c.range(2, 3);
   { GEN g(gm, gp); std::vector<size_t> cur(r.L.size(), 0), prop(r.L.size(), 0); for(int i = 0; i < rounds * 2; ++i) { g.getProposal(cur, prop); MC_TRACE(c, "proposal " << show(prop)); c.check(validLabeling(r, prop), "a proposal is complete and in range"); cur = prop; } }
   draws().used = 0; std::vector<int> start = anyLabeling(c, r); basedOn<GA, opengm::Minimizer, GEN>(c, r, gm, gp, start, true, rounds, 0, 1);
}
MC_SCENARIO("fusion/generators") {
   using namespace opengm::proposal_gen; typedef opengm::Minimizer A; int n = c.range(0, 3); RefModel r; for(int i = 0; i < n; ++i) r.L.push_back(c.range(1, 3)); int k = c.range(0, c.tier(2, 3)); Scopes s = allScopes(n, 1, 2); int last = 0; for(int i = 0; i < k; ++i) { last += c.choose((int)s.size() - last); RefFactor f; f.v = s[last]; r.f.push_back(f); fillPattern(r, i, c.choose(2)); }
   bool binary = true; for(int x : r.L) binary = binary && x == 2; const int R = RAND_MAX;
   switch(c.choose(7)) {
   case 0: generator<AlphaExpansionGen<GA, A> >(c, r, AlphaExpansionGen<GA, A>::Parameter(), 0, {0}, "expansion"); break;
   case 1: generator<AlphaBetaSwapGen<GA, A> >(c, r, AlphaBetaSwapGen<GA, A>::Parameter(), 0, {0}, "swap"); break;
   case 2: { int d = c.choose(3); generator<UpDownGen<GA, A> >(c, r, UpDownGen<GA, A>::Parameter(d == 0 ? "up" : d == 1 ? "down" : "random"), d == 2 ? n : 0, {0, 1}, "up and down"); break; }
   case 3: generator<RandomGen<GA, A> >(c, r, RandomGen<GA, A>::Parameter(), std::min(n, 2), {0, 1, 2}, "random"); break;
   case 4: if(!binary) c.prune(); generator<Random2Gen<GA, A> >(c, r, Random2Gen<GA, A>::Parameter(), 2, {0, 1, 2}, "random binary"); break;
   case 5: if(!n) c.prune(); generator<RandomLFGen<GA, A> >(c, r, RandomLFGen<GA, A>::Parameter(), std::min(n, 2), {0, 1, 2}, "random flipped"); break;
   default: generator<NonUniformRandomGen<GA, A> >(c, r, NonUniformRandomGen<GA, A>::Parameter(), 2, {0, R / 3, R / 2, R - 1}, "weighted"); break;
   }
}
template<class P> auto localMargs(P& p, bool on, int) -> decltype((void)(p.useLocalMargs_ = on)) { p.useLocalMargs_ = on; }
template<class P> void localMargs(P&, bool, long) {}
// blurred proposals are meant for models on grids with one unary factor per variable
MC_SCENARIO("fusion/blur") {
   using namespace opengm::proposal_gen; typedef opengm::Minimizer A; const int h = c.range(2, 3), w = c.range(2, c.tier(2, 3)), L = c.range(1, 3); RefModel r; r.L.assign(h * w, L); int p = c.choose(3);
   for(int i = 0; i < h * w; ++i) { RefFactor f; f.v = {i}; r.f.push_back(f); fillPattern(r, i, p); } for(int x = 0; x < w; ++x) for(int y = 0; y < h; ++y) { if(y + 1 < h) { RefFactor f; f.v = {y + h * x, y + 1 + h * x}; r.f.push_back(f); fillPattern(r, (int)r.f.size() - 1, 2); } if(x + 1 < w) { RefFactor f; f.v = {y + h * x, y + h * (x + 1)}; r.f.push_back(f); fillPattern(r, (int)r.f.size() - 1, 2); } }
   double sigma = c.flip() ? 1 : 0.3; const int R = RAND_MAX; GA gm; build(gm, r); MC_TRACE(c, r.str() << " sigma " << sigma); setDraws(c, 3, {0, 1, 2, R / 2, R - 1}); std::vector<int> start(h * w, 0); int how = c.choose(3);
   auto go = [&](auto* g) { typedef typename std::remove_pointer<decltype(g)>::type G; typename G::Parameter gp; gp.sigma_ = sigma; localMargs(gp, how == 2, 0); { G gen(gm, gp); std::vector<size_t> cur(h * w, 0), prop(h * w, 0); for(int i = 0; i < 4; ++i) { gen.getProposal(cur, prop); c.check(validLabeling(r, prop), "a proposal is complete and in range"); } } draws().used = 0; basedOn<GA, A, G>(c, r, gm, gp, start, true, 3, 0, 1); };
   if(how == 0) go((BlurGen<GA, A>*)0); else go((EnergyBlurGen<GA, A>*)0);
}
