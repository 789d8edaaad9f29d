// FLAGS: -O1 -UNDEBUG -Wno-deprecated-declarations
// C17: the same solvers with the library's own assertions enabled, models with negative, zero and positive optima.
#include "c17_dd.hxx"
#include <opengm/inference/trws/trws_trws.hxx>
#include <opengm/inference/trws/trws_adsal.hxx>
#include <opengm/inference/trws/smooth_nesterov.hxx>
typedef dd::GM GM;
template<class ACC> static void one(mc::Ctx& c, const RefModel& r, int solver) {
   GM gm; build(gm, r); MC_TRACE(c, r.str() << " solver " << solver); c.state(mc::mix(r.hash(), solver)); c.step();
   auto run = [&](auto& s) { typedef typename std::remove_reference<decltype(s)>::type S; Stages<S, ACC> v(c, r, false); s.infer(v); v.finish(s, 0); };
   if(solver == 0) { typedef opengm::TRWSi<GM, ACC> S; typename S::Parameter p(20); p.precision() = 1e-9; S s(gm, p); run(s); }
   else if(solver == 1) { typedef opengm::ADSal<GM, ACC> S; typename S::Parameter p(5); p.setPrecision(1e-9); S s(gm, p); run(s); }
   else if(solver == 2) { typedef opengm::NesterovAcceleratedGradient<GM, ACC> S; typename S::Parameter p(5); p.setPrecision(1e-9); S s(gm, p); run(s); }
   else { dd::Way w{solver == 3 ? 0 : 3, 2, c.choose(5), 10, c.flip(), 1.0, {}, {}}; dd::one<dd::Block, opengm::Bruteforce, ACC>(c, r, w); }
}
MC_SCENARIO("checked/shifted") { RefModel r = c.flip() ? withUnaries({2, 3}, {{0, 1}}) : withUnaries({2, 2, 2}, {{0, 1}, {0, 2}, {1, 2}}); int p = c.choose(5), q = c.choose(5); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, r.f[i].v.size() < 2 ? p : q); if(c.flip()) { const double unit = c.pick(std::vector<double>{1, 0.1, 1000.0 / 3}); for(auto& f : r.f) for(double& x : f.t) x *= unit; } const bool maxi = c.flip(); double shift = c.pick(std::vector<double>{0, 7, -7}); if(c.flip()) shift -= r.best(false, maxi); for(double& x : r.f[0].t) x += shift; int s = c.choose(5); if(maxi) one<opengm::Maximizer>(c, r, s); else one<opengm::Minimizer>(c, r, s); }
