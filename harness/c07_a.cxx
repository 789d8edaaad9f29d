// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS HDF5 -fsanitize=address -fno-sanitize-recover=all
// C07 (1): single functions survive serialisation; models load into models that held something else.
#include "c07_models.hxx"
// every labeling and every dimension of the restored function
template<class F> void restored(mc::Ctx& c, const F& g, const Tab& t) { c.eq((size_t)g.dimension(), t.sh.size(), "dimension of a restored function"); c.eq((size_t)g.size(), t.v.size(), "size of a restored function"); for(size_t d = 0; d < t.sh.size(); ++d) c.eq((size_t)g.shape(d), t.sh[d], "shape of a restored function"); for(size_t k = 0; k < t.v.size(); ++k) { Co x = t.co(k); x.push_back(0); c.near((double)g(x.begin()), t.v[k], 1e-5 * (1 + std::fabs(t.v[k])), "value of a restored function"); } }
struct RoundTrip {
   mc::Ctx& c; explicit RoundTrip(mc::Ctx& x) : c(x) {}
   template<class F> void operator()(const F& f, const Tab& t) const {
      typedef opengm::FunctionSerialization<F> S; typedef typename F::ValueType T; c.state(t.hash()); c.step(); const size_t ni = S::indexSequenceSize(f), nv = S::valueSequenceSize(f); std::vector<opengm::UInt64Type> ix(ni + 1, 4711); std::vector<T> va(nv + 1, (T)77);
      marray::Vector<opengm::UInt64Type> mi(ni + 1, 4711); marray::Vector<T> mv(nv + 1, (T)77); S::serialize(f, ix.begin(), va.begin()); S::serialize(f, mi.begin(), mv.begin()); c.eq(ix.back(), (opengm::UInt64Type)4711, "indices written beyond the declared number"); c.check(va.back() == (T)77, "values written beyond the declared number"); for(size_t i = 0; i <= ni; ++i) c.eq(mi(i), ix[i], "indices do not depend on the container"); for(size_t i = 0; i <= nv; ++i) c.check(mv(i) == va[i], "values do not depend on the container");
      F g; S::deserialize(ix.begin(), va.begin(), g); restored(c, g, t); c.eq((size_t)S::indexSequenceSize(g), ni, "index count of a restored function"); c.eq((size_t)S::valueSequenceSize(g), nv, "value count of a restored function");
      F h(f); S::deserialize(mi.begin(), mv.begin(), h); restored(c, h, t); c.outcome(mc::mix(ni, nv));
   }
};
typedef Fn<double, size_t, size_t> D; typedef Fn<float, unsigned, unsigned char> U; typedef Fn<int, unsigned short, unsigned> N;
MC_SCENARIO("functions/explicit") { D::genExplicit(c, RoundTrip(c), c.tier(4, 6)); }
MC_SCENARIO("functions/explicit-float") { U::genExplicit(c, RoundTrip(c), 2); }
MC_SCENARIO("functions/sparse") { D::genSparse(c, RoundTrip(c), c.tier(2, 3)); }
MC_SCENARIO("functions/sparse-float") { U::genSparse(c, RoundTrip(c), c.tier(1, 2)); }
MC_SCENARIO("functions/potts") { D::genPotts(c, RoundTrip(c)); }
MC_SCENARIO("functions/pottsn") { if(c.flip()) D::genPottsN(c, RoundTrip(c)); else N::genPottsN(c, RoundTrip(c)); }
MC_SCENARIO("functions/pottsg") { D::genPottsG(c, RoundTrip(c), c.tier(4, 6)); }
MC_SCENARIO("functions/constant") { if(c.flip()) D::genConstant(c, RoundTrip(c)); else U::genConstant(c, RoundTrip(c)); }
MC_SCENARIO("functions/differences") { switch(c.choose(4)) { case 0: D::genDiff<D::AD>(c, RoundTrip(c), false, "absolute"); break; case 1: D::genDiff<D::SD>(c, RoundTrip(c), true, "squared"); break; case 2: D::genTrunc<D::TAD>(c, RoundTrip(c), false, "truncated absolute"); break; default: D::genTrunc<D::TSD>(c, RoundTrip(c), true, "truncated squared"); } }
MC_SCENARIO("functions/differences-float") { switch(c.choose(4)) { case 0: U::genDiff<U::AD>(c, RoundTrip(c), false, "absolute"); break; case 1: U::genDiff<U::SD>(c, RoundTrip(c), true, "squared"); break; case 2: U::genTrunc<U::TAD>(c, RoundTrip(c), false, "truncated absolute"); break; default: U::genTrunc<U::TSD>(c, RoundTrip(c), true, "truncated squared"); } }
MC_SCENARIO("functions/potts-small-types") { switch(c.choose(3)) { case 0: U::genPotts(c, RoundTrip(c)); break; case 1: U::genPottsG(c, RoundTrip(c), 3); break; default: N::genPotts(c, RoundTrip(c)); } }
