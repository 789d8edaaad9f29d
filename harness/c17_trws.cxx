// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -Wno-deprecated-declarations
// C17: TRW-S; bound and value at every stage of every run on every small model, against enumeration.
#include "c17_stages.hxx"
#include <opengm/inference/trws/trws_trws.hxx>
typedef GmOf<double, opengm::Adder>::type GM;
template<class ACC> static void one(mc::Ctx& c, const RefModel& r, int structure, int iterations, bool fast, bool canonical, bool again) {
   typedef opengm::TRWSi<GM, ACC> S; typedef typename S::Storage St; GM gm; build(gm, r); const bool maxi = IsMax<ACC>::value; MC_TRACE(c, r.str() << " structure " << structure << " iterations " << iterations << (fast ? " fast" : "") << (canonical ? " canonical" : "")); c.state(mc::mix(r.hash(), structure * 1000 + iterations * 4 + fast * 2 + canonical));
   typename S::Parameter p(iterations, structure == 0 ? St::GENERALSTRUCTURE : structure == 1 ? St::EDGESTRUCTURE : St::GRIDSTRUCTURE, 1e-9, true, false); p.fastComputations() = fast; p.canonicalNormalization() = canonical; p.minRelativeDualImprovement() = -1;
   S s(gm, p); Stages<S, ACC> v(c, r, true); c.near(s.value(), (double)ACC::template neutral<double>(), 0, "no value before inference"); s.infer(v); c.step(); v.finish(s, iterations);
   std::vector<bool> agree; std::vector<size_t> lab; s.getTreeAgreement(agree, &lab); bool all = true; for(bool b : agree) all = all && b; c.eq(agree.size(), r.L.size(), "one mark per variable");
   if(all) { c.check(validLabeling(r, lab), "the labeling trees agree on is a labeling"); c.near(r.eval(toInt(lab)), v.opt, 1e-6, "a labeling on which all trees agree is optimal"); c.near(s.bound(), v.opt, 1e-6, "agreement of the trees closes the bound"); }
   if(iterations >= 40 && refAcyclic(r)) c.near(s.bound(), v.opt, 1e-5, "on acyclic models the bound is the optimum");
   c.outcome(mc::mix(all, mc::bitsOf(s.bound() == s.value()))); (void)maxi;
   if(again) { S t(gm, p); t.infer(); c.step(); c.near(t.bound(), s.bound(), 1e-9, "bound without a visitor"); std::vector<size_t> a, b; s.arg(a); t.arg(b); c.check(a == b, "labeling without a visitor"); Stages<S, ACC> w(c, r, false); s.infer(w); w.finish(s, iterations); }
}
#define ONE(r, ...) do { if(c.flip()) one<opengm::Maximizer>(c, r, __VA_ARGS__); else one<opengm::Minimizer>(c, r, __VA_ARGS__); } while(0)
MC_SCENARIO("trws/pair/all values") { RefModel r = withUnaries({2, 2}, {{0, 1}}); fillAll(c, r, 0, {0, 1}); fillAll(c, r, 1, {0, -1}); fillAll(c, r, 2, {0, -1, 1}); ONE(r, c.choose(2), c.pick(std::vector<int>{1, 2, 50}), c.flip(), c.flip(), true); }
MC_SCENARIO("trws/triangle") { RefModel r = withUnaries({2, 2, 2}, {{0, 1}, {0, 2}, {1, 2}}, c.flip()); for(int i = 0; i < 6; ++i) { if(r.f[i].v.size() == 1) fillPattern(r, i, c.choose(c.tier(3, 5))); else { double s = c.pick(std::vector<double>{1, -1, 2}), t = c.pick(std::vector<double>{0, -1, 0.5}); r.f[i].t = {0, s, t + s, 0}; } } ONE(r, c.choose(2), c.pick(std::vector<int>{1, 3, 40}), c.flip(), c.flip(), false); }
MC_SCENARIO("trws/any") { RefModel r = anyPairwise(c, c.range(1, 4), {1, 2, 3}, c.range(0, c.tier(3, 5)), c.tier(3, 5)); ONE(r, 0, c.pick(std::vector<int>{1, 2, 40}), c.flip(), c.flip(), c.flip()); }
MC_SCENARIO("trws/edges") { RefModel r = anyPairwise(c, c.range(1, 4), {2, 3}, c.range(0, 4), 3); ONE(r, 1, c.pick(std::vector<int>{1, 2, 40}), c.flip(), c.flip(), c.flip()); }
MC_SCENARIO("trws/grid") { RefModel r = gridModel(c, 3 + c.flip()); ONE(r, c.choose(3), c.pick(std::vector<int>{1, 2, 40}), c.flip(), c.flip(), c.flip()); }
MC_SCENARIO("trws/potts") { const int n = c.range(2, c.tier(3, 4)), l = c.range(2, 4); Scopes s; for(int i = 0; i < n; ++i) for(int j = i + 1; j < n; ++j) if(n < 4 || j == i + 1 || (i == 0 && j == 3)) s.push_back({i, j}); RefModel r = withUnaries(std::vector<int>(n, l), s, c.flip()); int q = c.choose(5); for(size_t i = 0; i < r.f.size(); ++i) if(r.f[i].v.size() == 1) fillPattern(r, (int)i, q); else potts(r, (int)i, c.pick(std::vector<double>{-1, 0, 0.5, 2}), c.pick(std::vector<double>{0, 1})); ONE(r, c.choose(2), c.pick(std::vector<int>{1, 2, 40}), c.flip(), c.flip(), false); }
// models the solver does not handle are refused; whatever is accepted is solved as promised
MC_SCENARIO("trws/unusual") { int kind = c.choose(9), structure = c.choose(3); Scopes s = {{0}, {1}, {2}, {0, 1}, {1, 2}}; if(kind == 0) s.push_back({}); else if(kind == 1) s.push_back({0, 1, 2}); else if(kind == 2) s.erase(s.begin() + 1); else if(kind == 3) s.push_back({1}); else if(kind == 4) s.push_back({0, 1}); else if(kind == 5) s.insert(s.begin(), std::vector<int>()); else if(kind == 6) s = {{0, 1}, {1, 2}, {0, 2}}; else if(kind == 7) s.push_back({1, 2}); else s.clear(); RefModel r = fixedModel({2, c.range(1, 3), 2}, s); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, c.choose(3)); if(kind == 0 || kind == 5) r.f[kind == 0 ? 5 : 0].t = {c.flip() ? -4.0 : 3.0};
   GM gm; build(gm, r); MC_TRACE(c, "kind " << kind); bool thrown = false; try { typedef opengm::TRWSi<GM, opengm::Minimizer> S; S::Parameter p(1, structure == 0 ? S::Storage::GENERALSTRUCTURE : structure == 1 ? S::Storage::EDGESTRUCTURE : S::Storage::GRIDSTRUCTURE, 1e-9); S s(gm, p); } catch(std::exception& e) { thrown = true; MC_TRACE(c, e.what()); }
   c.outcome(thrown * 16 + kind); c.step(); if(thrown) return; ONE(r, structure, c.pick(std::vector<int>{1, 2, 40}), c.flip(), c.flip(), false); }
MC_SCENARIO("trws/stopped") { RefModel r = anyPairwise(c, c.range(2, 3), {2, 3}, c.range(1, 3), 3); const size_t flag = c.flip() ? opengm::visitors::VisitorReturnFlag::StopInfTimeout : opengm::visitors::VisitorReturnFlag::StopInfBoundReached; const int stop = c.range(0, 3); typedef opengm::TRWSi<GM, opengm::Minimizer> S; GM gm; build(gm, r); c.state(mc::mix(r.hash(), stop * 2 + flag)); S::Parameter p(20, c.flip() ? S::Storage::GENERALSTRUCTURE : S::Storage::EDGESTRUCTURE, 1e-9); p.minRelativeDualImprovement() = -1; S s(gm, p); Stages<S, opengm::Minimizer> v(c, r, true, stop, flag); s.infer(v); c.step(); v.finish(s, 20); c.check(v.calls <= stop + 1, "a request to stop is obeyed"); }
