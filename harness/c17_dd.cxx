// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -Wno-deprecated-declarations
// C17: sub-gradient dual decomposition; every decomposition of every small model, every step rule, at every iteration against enumeration.
#include "c17_dd.hxx"
using namespace dd;
static Way way(mc::Ctx& c, const RefModel& r, int id) {
   Way w{id, 2, c.choose(5), c.pick(std::vector<int>{1, 4, 20}), c.flip(), c.flip() ? 1.0 : 0.25, {}, {}};
   if(id == 2) w.blocks = c.range(1, (int)r.L.size()); else if(id == 3) w.blocks = c.range(1, 3);
   else if(id == 4) { w.factors.resize(2); for(size_t f = 0; f < r.f.size(); ++f) { int q = f < 4 ? c.choose(3) : 2; if(q != 1) w.factors[0].push_back(f); if(q != 0) w.factors[1].push_back(f); } if(w.factors[0].empty() || w.factors[1].empty()) c.prune(); }
   else if(id >= 5) { w.variables.resize(2); for(size_t x = 0; x < r.L.size(); ++x) { int q = c.choose(3); if(q != 1) w.variables[0].insert(x); if(q != 0) w.variables[1].insert(x); } if(w.variables[0].empty() || w.variables[1].empty()) c.prune();
      if(id == 6) for(auto& f : r.f) { bool some = false; for(auto& s : w.variables) { bool all = true; for(int v : f.v) all = all && s.count(v); some = some || all; } if(!some) c.prune(); } }   // open blocks have to cover the factors
   return w;
}
#define MODELS int k = c.choose(c.tier(4, 6)); RefModel r = k == 0 ? fixedModel({2, 2, 2}, {{0}, {1}, {0, 1}, {0, 2}, {1, 2}}) : k == 1 ? fixedModel({2, 3}, {{0, 1}, {0}, {1}, {0, 1}}) : k == 2 ? fixedModel({2, 2, 2}, {{0, 1, 2}, {2}, {0, 2}}) : k == 3 ? fixedModel({3, 2, 2}, {{0, 1}, {1, 2}, {0}, {1}}) : k == 4 ? fixedModel({2, 2, 2, 2}, {{0, 1}, {1, 2}, {2, 3}, {0, 3}, {1}, {2}}) : fixedModel({2, 2, 2, 2}, {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}); { int q = c.choose(5), p = c.choose(5); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, r.f[i].v.size() < 2 ? q : p); }
MC_SCENARIO("dual/spanning trees") { MODELS Way w = way(c, r, 0); if(k != 2 && c.flip()) either<Block, opengm::DynamicProgramming>(c, r, w); else either<Block, opengm::Bruteforce>(c, r, w, w.iterations == 4); }
MC_SCENARIO("dual/tree") { MODELS Way w = way(c, r, 1); either<Views, opengm::Bruteforce>(c, r, w); }
MC_SCENARIO("dual/blocks") { MODELS Way w = way(c, r, 2); either<Views, opengm::Bruteforce>(c, r, w, w.iterations == 4); }
MC_SCENARIO("dual/fans") { MODELS if(k == 2) c.prune(); Way w = way(c, r, 3); either<Block, opengm::Bruteforce>(c, r, w); }
MC_SCENARIO("dual/manual") { MODELS Way w = way(c, r, 4); either<Block, opengm::Bruteforce>(c, r, w); }
MC_SCENARIO("dual/closed blocks") { MODELS Way w = way(c, r, 5); either<Views, opengm::Bruteforce>(c, r, w); }
MC_SCENARIO("dual/open blocks") { MODELS Way w = way(c, r, 6); either<Block, opengm::Bruteforce>(c, r, w); }
MC_SCENARIO("dual/any") { RefModel r = anyModel(c, c.range(1, 3), {2, 1, 3}, c.range(1, c.tier(2, 3)), 0, 3, 3); Way w{c.choose(3), 2, c.choose(3), 5, c.flip(), 1.0, {}, {}}; either<Block, opengm::Bruteforce>(c, r, w); }
MC_SCENARIO("dual/convergence") { RefModel r = c.flip() ? fixedModel({2, 2, 2}, {{0}, {1}, {0, 1}, {1, 2}}) : fixedModel({2, 3}, {{0}, {1}, {0, 1}}); int p = c.choose(5), q = c.choose(5); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, r.f[i].v.size() < 2 ? q : p); Way w{4, 2, c.flip() ? 4 : 0, 400, c.flip(), 1.0, {}, {}}; w.factors.resize(2); for(size_t f = 0; f < r.f.size(); ++f) w.factors[c.choose(2)].push_back(f); if(w.factors[0].empty() || w.factors[1].empty()) c.prune(); const bool maxi = c.flip(); GM gm; build(gm, r); c.step(); c.state(mc::mix(r.hash(), w.stepping)); MC_TRACE(c, r.str() << " stepping " << w.stepping << " first part " << show(w.factors[0]));
   auto run = [&](auto* s0) { typedef typename std::remove_pointer<decltype(s0)>::type S; typename S::Parameter p; set(p, w); S s(gm, p); s.infer(); const double opt = r.best(false, maxi); MC_TRACE(c, "optimum " << opt << " bound " << s.bound()); c.near(s.bound(), opt, 0.35, "on acyclic models the bound approaches the optimum"); };
   typedef opengm::DualDecompositionBase<GM, Block>::SubGmType Sub; if(maxi) run((opengm::DualDecompositionSubGradient<GM, opengm::Bruteforce<Sub, opengm::Maximizer>, Block>*)0); else run((opengm::DualDecompositionSubGradient<GM, opengm::Bruteforce<Sub, opengm::Minimizer>, Block>*)0); }
