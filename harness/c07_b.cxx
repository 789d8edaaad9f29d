// FLAGS: -O0 -D_GLIBCXX_ASSERTIONS HDF5 -fsanitize=address -fno-sanitize-recover=all
// C07 (2): every small model, saved and loaded into fresh and filled models of several types.
#include "c07_models.hxx"
typedef Types<double, size_t, size_t> TD; typedef Types<float, unsigned, unsigned char, opengm::Multiplier> TF;
namespace oh = opengm::hdf5;
template<class G> static void filled(G& gm) { RefModel o; o.L = {2, 3, 2, 2}; gm = Build<G>::space(o); Build<G>::add(gm, o, {0, 1, 2, 3}, 0, 5, 2); Build<G>::add(gm, o, {1}, 0, 5, 1); Build<G>::add(gm, o, {2, 3}, 1, 2, 1); }
template<class Y, class G> static void roundTrip(mc::Ctx& c, int n, int k, const std::vector<int>& labels, const std::vector<int>& kinds, int maxOrder, double eps) {
   Quiet quiet; RefModel r; G gm; if(!anyTyped(c, gm, r, n, k, labels, kinds, maxOrder)) c.prune(); c.state(r.hash()); c.step(); MC_TRACE(c, r.str()); same(c, gm, r, eps); const std::string f = scratchFile("model"); const long before = openHandles(); const bool second = c.flip(); const std::string name = second ? "gm" : "some-model"; if(second) { std::ofstream o(f.c_str()); o << "not a model"; }
   oh::save(gm, f, name); c.eq(openHandles(), before, "handles left open by saving"); same(c, gm, r, eps);
   switch(c.choose(5)) {
   case 0: { G q; oh::load(q, f, name); same(c, q, r, eps); for(size_t t = 0; t < (size_t)G::NrOfFunctionTypes; ++t) c.eq((size_t)q.numberOfFunctions(t), (size_t)gm.numberOfFunctions(t), "functions of a type"); for(size_t i = 0; i < r.f.size(); ++i) { c.eq((size_t)q[i].functionIndex(), (size_t)gm[i].functionIndex(), "function of a factor"); c.eq((size_t)q[i].functionType(), (size_t)gm[i].functionType(), "function type of a factor"); }
             const std::string f2 = scratchFile("again"); oh::save(q, f2, "x"); G z; oh::load(z, f2, "x"); same(c, z, r, eps); std::remove(f2.c_str()); RefModel e(r); if(n) { Build<G>::add(q, e, {n - 1}, 0, 4, 1); same(c, q, e, eps); typename G::LabelType two = 2; q.addVariable(two); e.L.push_back(2); same(c, q, e, eps); } break; }
   case 1: { G q; filled(q); oh::load(q, f, name); same(c, q, r, eps); for(size_t t = 0; t < (size_t)G::NrOfFunctionTypes; ++t) c.eq((size_t)q.numberOfFunctions(t), (size_t)gm.numberOfFunctions(t), "functions of a type"); G z; z = q; same(c, z, r, eps); break; }
   case 2: { typename Y::Other q; if(c.flip()) filled(q); oh::load(q, f, name); same(c, q, r, eps); break; }
   case 3: { typename Y::Small q; const bool fits = !gm.numberOfFunctions(2) && !gm.numberOfFunctions(3) && !gm.numberOfFunctions(4) && !gm.numberOfFunctions(5) && !gm.numberOfFunctions(6); bool bad = fails([&] { oh::load(q, f, name); }); c.eq(bad, !fits, "loading a model with unknown function types fails"); if(!bad) same(c, q, r, eps); break; }
   default: { G q; c.check(fails([&] { oh::load(q, f, "other"); }), "loading a model that is not in the file fails"); c.check(fails([&] { oh::load(q, f + "x", name); }), "loading from a missing file fails"); oh::load(q, f, name); same(c, q, r, eps); break; }
   }
   c.eq(openHandles(), before, "handles left open by loading"); oh::save(gm, f, name); std::remove(f.c_str()); c.outcome(r.hash());
}
MC_SCENARIO("models/none") { roundTrip<TD, TD::Gm>(c, 0, c.range(0, 2), {2}, {0, 7}, 0, 0); }
MC_SCENARIO("models/one-variable") { roundTrip<TD, TD::Gm>(c, 1, c.range(0, c.tier(1, 2)), {1, 3}, {0, 2, 4, 6, 7}, 1, 0); }
MC_SCENARIO("models/two-variables") { roundTrip<TD, TD::Gm>(c, 2, c.range(0, c.tier(1, 2)), c.thorough ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 3}, {0, 1, 2, 3, 4, 5, 6, 7}, 2, 0); }
MC_SCENARIO("models/three-variables") { roundTrip<TD, TD::Gm>(c, 3, c.range(1, c.tier(1, 2)), {1, 2}, c.thorough ? std::vector<int>{0, 2, 4} : std::vector<int>{0, 2}, 3, 0); }
MC_SCENARIO("models/floats") { roundTrip<TF, TF::Gm>(c, 2, c.range(0, c.tier(1, 2)), {2, 3}, {0, 1, 2, 3, 4, 5, 6, 7}, 2, 1e-4); }
// other value types, read back as the same or another value type
template<class A, class B> static void values(mc::Ctx& c) { Quiet quiet; RefModel r; typename A::Gm gm; if(!anyTyped(c, gm, r, 2, c.range(1, 2), {2}, {0, 1, 2, 5}, 2)) c.prune(); c.state(r.hash()); c.step(); MC_TRACE(c, r.str()); const std::string f = scratchFile("value"); oh::save(gm, f, "gm"); typename B::Gm q; oh::load(q, f, "gm"); same(c, q, r); typename A::Gm z; oh::load(z, f, "gm"); same(c, z, r); std::remove(f.c_str()); c.outcome(r.hash()); }
typedef Types<int, size_t, size_t> TI; typedef Types<float, unsigned, unsigned char> TS;
MC_SCENARIO("values/int-double") { values<TI, TD>(c); }
MC_SCENARIO("values/double-int") { values<TD, TI>(c); }
MC_SCENARIO("values/float-double") { values<TS, TD>(c); }
MC_SCENARIO("values/double-float") { values<TD, TS>(c); }
MC_SCENARIO("values/long-unsigned") { values<Types<long, size_t, size_t>, Types<unsigned, unsigned, unsigned> >(c); }
MC_SCENARIO("values/unsigned-long") { values<Types<unsigned, unsigned, unsigned>, Types<long, size_t, size_t> >(c); }
// spaces with one label count for all variables
MC_SCENARIO("spaces/simple") { Quiet quiet; typedef TD::Simple G; RefModel r; int n = c.range(0, 3), l = c.range(1, 3); r.L.assign(n, l); G gm(G::SpaceType(n, l)); Scopes s = allScopes(n, 0, std::min(n, 2)); int k = c.range(0, 2); for(int i = 0; i < k; ++i) if(!Build<G>::add(gm, r, c.pick(s), c.pick(std::vector<int>{0, 1, 2}), i, 1)) c.prune(); c.state(r.hash()); c.step(); const std::string f = scratchFile("simple"); oh::save(gm, f, "gm"); if(c.flip()) { G q; oh::load(q, f, "gm"); same(c, q, r); } else { TD::Gm q; filled(q); oh::load(q, f, "gm"); same(c, q, r); } std::remove(f.c_str()); c.outcome(r.hash()); }
// saved with one list of function types, loaded with a shorter one in another order
MC_SCENARIO("types/subset") { Quiet quiet; RefModel r; TD::Other gm; if(!anyTyped(c, gm, r, 2, c.range(0, c.tier(2, 3)), {2}, {0, 1, 6, 7}, 2)) c.prune(); c.state(r.hash()); c.step(); MC_TRACE(c, r.str()); const std::string f = scratchFile("subset"); oh::save(gm, f, "gm"); bool fits = true; for(size_t i = 0; i < r.f.size(); ++i) if(gm[i].functionType() == 1) fits = false; if(c.flip()) { TD::Small q; bool bad = fails([&] { oh::load(q, f, "gm"); }); c.eq(bad, !fits, "loading a model with unknown function types fails"); if(!bad) same(c, q, r); } else { TD::Gm q; oh::load(q, f, "gm"); same(c, q, r); } std::remove(f.c_str()); c.outcome(r.hash()); }
