// FLAGS:
// C24: learnable functions against the sum of weights times gradients, through histories of weight updates.
#include "gm.hxx"
#include <opengm/graphicalmodel/weights.hxx>
#include <opengm/functions/learnable/lpotts.hxx>
#include <opengm/functions/learnable/lunary.hxx>
#include <opengm/functions/learnable/lweightedsum_of_functions.hxx>
using mc::Ctx;
typedef opengm::learning::Weights<double> W; typedef std::vector<size_t> V; namespace ln = opengm::functions::learnable;
static const double WV[] = {0, 1, -2, 0.5}, FV[] = {1, 0, -1, 2};
struct Term { size_t weight; std::vector<double> feat; };   // feature of every labeling, first coordinate fastest
struct Ref { V shape; std::vector<Term> t; std::vector<double> w; size_t cells() const { size_t n = 1; for(size_t s : shape) n *= s; return n; } };
static V coord(const V& shape, size_t k) { V x; for(size_t s : shape) { x.push_back(k % s); k /= s; } return x; }
// everything observable; terms may be listed in any order but with the weight indices and features given
template<class F> static void checkF(Ctx& c, const F& f, const Ref& r) {
   c.eq((size_t)f.dimension(), r.shape.size(), "dimension"); for(size_t i = 0; i < r.shape.size(); ++i) c.eq((size_t)f.shape(i), r.shape[i], "shape"); c.eq((size_t)f.size(), r.cells(), "size"); c.eq((size_t)f.numberOfWeights(), r.t.size(), "number of weights");
   for(size_t i = 0; i < r.t.size(); ++i) c.eq((size_t)f.weightIndex(i), r.t[i].weight, "weight index");
   for(size_t k = 0; k < r.cells(); ++k) { V x = coord(r.shape, k); double want = 0; for(size_t i = 0; i < r.t.size(); ++i) { c.eq((double)f.weightGradient(i, x.begin()), r.t[i].feat[k], "the gradient is the feature of the labeling"); want += r.w[r.t[i].weight] * r.t[i].feat[k]; } c.eq((double)f(x.begin()), want, "the value is the sum of weights times gradients"); }
   mc::u64 h = 1; for(double w : r.w) h = mc::mix(h, mc::bitsOf(w)); for(auto& t : r.t) { h = mc::mix(h, t.weight); for(double q : t.feat) h = mc::mix(h, mc::bitsOf(q)); } c.state(h);
}
template<class F> static F roundTrip(Ctx& c, const F& f, F g) {
   typedef opengm::FunctionSerialization<F> S; std::vector<opengm::UInt64Type> ix(S::indexSequenceSize(f)); std::vector<double> va(S::valueSequenceSize(f)); ix.push_back(77); va.push_back(-77); S::serialize(f, ix.begin(), va.begin()); c.eq(ix.back(), (opengm::UInt64Type)77, "serialisation writes what it announced"); c.eq(va.back(), -77.0, "serialisation writes what it announced"); S::deserialize(ix.begin(), va.begin(), g); return g;
}
// a history of updates of the weights the function refers to, and of replacing the weight vector
template<class F> static void history(Ctx& c, const F& f0, W& w, Ref r, const F& other, bool quick = false) {
   typedef opengm::GraphicalModel<double, opengm::Adder, typename opengm::meta::TypeListGenerator<opengm::ExplicitFunction<double>, F>::type, opengm::DiscreteSpace<> > GM;
   checkF(c, f0, r); W second(w.size()); for(size_t i = 0; i < w.size(); ++i) second.setWeight(i, 3 - (double)i); F f = f0; W* cur = &w; int via = quick ? 0 : c.choose(5);
   if(via == 1) { F* p = new F(f0); F q(*p); delete p; f = q; } else if(via == 2) { f = roundTrip(c, f0, F()); f.setWeights(w); } else if(via == 3) { f = roundTrip(c, f0, other); f.setWeights(w); }
   std::vector<size_t> L(1, 2), vi; for(size_t i = 0; i < r.shape.size(); ++i) { vi.push_back(i + 1); L.push_back(r.shape[i]); } GM gm(opengm::DiscreteSpace<>(L.begin(), L.end())); gm.addFactor(gm.addFunction(f), vi.begin(), vi.end());
   for(int d = 0, depth = 2;; ++d) {
      if(via == 4) for(size_t k = 0; k < r.cells(); ++k) { V x = coord(r.shape, k), y(1, 1); y.insert(y.end(), x.begin(), x.end()); double want = 0; for(auto& t : r.t) want += r.w[t.weight] * t.feat[k]; c.eq(gm.evaluate(y.begin()), want, "the model's value follows the weights"); c.eq((double)gm[0](x.begin()), want, "the factor's value follows the weights"); }
      else checkF(c, f, r);
      if(d == depth) break; int o = c.choose(via == 4 ? 4 : 5); if(o == 0) break; int iv = o < 4 ? c.choose(c.tier(4, 6)) : 0; size_t i = o == 3 ? 0 : (size_t)(iv * (d ? 5 : 1)) % w.size(); double v = WV[(iv + d) % 4];
      switch(o) {
         case 1: cur->setWeight(i, v); r.w[i] = v; c.eq(cur->getWeight(i), v, "a weight keeps the value it was given"); break;
         case 2: (*cur)[i] = v; r.w[i] = v; break;
         case 3: { W n(w.size()); for(size_t k = 0; k < w.size(); ++k) { n.setWeight(k, v + k); r.w[k] = v + k; } *cur = n; break; }   // new contents for the same object
         case 4: cur = cur == &w ? &second : &w; f.setWeights(*cur); for(size_t k = 0; k < w.size(); ++k) r.w[k] = cur->getWeight(k); break;
      }
      c.eq(cur->size(), r.w.size(), "number of weights"); c.eq(cur->numberOfWeights(), r.w.size(), "number of weights"); for(size_t k = 0; k < r.w.size(); ++k) c.eq(cur->getWeight(k), r.w[k], "only the addressed weight changes");
   }
}
static W startWeights(Ctx& c, int n, Ref& r) { W w(n); for(int i = 0; i < n; ++i) { c.eq(w.getWeight(i), 0.0, "new weights are zero"); double v = 1.5 * i - 1; w.setWeight(i, v); r.w.push_back(v); } return w; }
MC_SCENARIO("learnable Potts functions") {
   Ref r; int L = c.range(1, 3), n = c.choose(4); W w = startWeights(c, 3, r); std::vector<size_t> ids; std::vector<double> feat; r.shape = {(size_t)L, (size_t)L};
   for(int i = 0; i < n; ++i) { ids.push_back(c.choose(3)); feat.push_back(c.pick(FV)); Term t; t.weight = ids.back(); for(size_t k = 0; k < r.cells(); ++k) { V x = coord(r.shape, k); t.feat.push_back(x[0] != x[1] ? feat.back() : 0); } r.t.push_back(t); }
   MC_TRACE(c, "labels " << L << " weights " << show(ids) << " features " << show(feat)); typedef ln::LPotts<double> F; if(n == 3) { checkF(c, F(w, L, ids, feat), r); return; } F f(L, ids, feat); f.setWeights(w); std::vector<size_t> oi = {2, 1, 0, 1}; std::vector<double> of = {4, 5, 6, 7}; history(c, c.flip() ? f : F(w, L, ids, feat), w, r, F(w, 5, oi, of));
}
MC_SCENARIO("learnable unaries: features per label") {
   Ref r; int L = c.range(1, 3); W w = startWeights(c, 4, r); r.shape = {(size_t)L}; std::vector<ln::FeaturesAndIndices<double, size_t> > fi(L); std::vector<int> owner(4); for(int i = 0; i < 4; ++i) owner[i] = i < c.tier(3, 4) ? c.choose(L + 1) - 1 : (L * 2) % 3 - 1; bool down = c.flip(); int nf = 0;
   for(int l = 0; l < L; ++l) for(int k = 0; k < 4; ++k) { int i = down ? 3 - k : k; if(owner[i] != l) continue; double q = nf++ < c.tier(2, 3) ? c.pick(FV) : 1 + 2.0 * nf; fi[l].features.push_back(q); fi[l].weightIds.push_back(i); Term t; t.weight = i; t.feat.assign(L, 0.0); t.feat[l] = q; r.t.push_back(t); }
   typedef ln::LUnary<double, size_t, size_t> F; F f(w, fi); std::vector<ln::FeaturesAndIndices<double, size_t> > of(2); of[0].features = {3, 4}; of[0].weightIds = {1, 3}; history(c, f, w, r, F(w, of));
}
static marray::Marray<size_t> ids2(size_t a, size_t b) { size_t s[] = {a, b}; return marray::Marray<size_t>(s, s + 2, 0); }
MC_SCENARIO("learnable unaries: shared features") {
   Ref r; int L = c.range(1, 3), nf = c.range(1, 2); bool first = c.flip(); if(first && L == 1) return; W w = startWeights(c, 4, r); r.shape = {(size_t)L}; marray::Marray<size_t> ids = ids2(L - first, nf); size_t s[] = {(size_t)nf}; marray::Marray<double> feat(s, s + 1, 0.0); for(int i = 0; i < nf; ++i) feat(i) = c.pick(FV);
   int pat = c.choose(c.tier(4, 12)); int k = 0; for(int l = first; l < L; ++l) for(int i = 0; i < nf; ++i) { size_t id = pat == 0 ? k % 4 : pat == 1 ? (3 - k % 4) : (size_t)((k * (pat - 1) + l * pat) % 4); ++k; ids(l - first, i) = id; Term t; t.weight = id; t.feat.assign(L, 0.0); t.feat[l] = feat(i); r.t.push_back(t); }
   typedef ln::LUnary<double, size_t, size_t> F; F f(w, L, ids, feat, first); std::vector<ln::FeaturesAndIndices<double, size_t> > of(2); of[0].features = {3, 4}; of[0].weightIds = {1, 3}; history(c, f, w, r, F(w, of));
}
MC_SCENARIO("learnable sums of functions") {
   static const std::vector<V> SH = {{2}, {3}, {2, 2}, {2, 3}, {3, 2}, {1, 2, 2}, {2, 3, 2}, {1}}; Ref r; r.shape = c.pick(SH); int n = c.choose(3); W w = startWeights(c, 3, r); std::vector<size_t> ids; std::vector<marray::Marray<double> > feat; typedef ln::LWeightedSumOfFunctions<double> F; int fr = 0;
   for(int i = 0; i < n; ++i) { Term t; t.weight = c.choose(3); ids.push_back(t.weight); marray::Marray<double> m(r.shape.begin(), r.shape.end(), 0.0); for(size_t k = 0; k < r.cells(); ++k) { double q = fr++ < c.tier(2, 3) ? c.pick(FV) : (double)((k * 3 + 5 * i + 1) % 7) - 3; V x = coord(r.shape, k); m(x.begin()) = q; t.feat.push_back(q); } feat.push_back(m); r.t.push_back(t); }
   V os = {2, 2}; std::vector<size_t> oi = {1}; std::vector<marray::Marray<double> > of(1, marray::Marray<double>(os.begin(), os.end(), 4.0)); history(c, F(r.shape, w, ids, feat), w, r, F(os, w, oi, of));
}
MC_SCENARIO("regularisers and weight constraints") {
   int n = c.range(0, 3); W w(n); std::vector<double> v; for(int i = 0; i < n; ++i) { v.push_back(c.pick(WV)); w.setWeight(i, v.back()); } static const double LA[] = {1, 0.5, 0}; double lam = c.pick(LA); typedef opengm::learning::WeightRegularizer<double> R; int kind = c.choose(3); static const int NORM[] = {-1, 1, 2}; R::RegularizationType T[] = {R::NoRegularizer, R::L1Regularizer, R::L2Regularizer}; bool byNorm = c.flip();
   R reg = byNorm ? R(NORM[kind], lam) : R(T[kind], lam); double want = 0; for(double x : v) want += kind == 0 ? 0 : kind == 1 ? std::fabs(x) : x * x; c.eq(reg.evaluate(w), want * lam, "the regulariser's value"); c.eq(reg.lambda(), lam, "lambda"); c.eq(reg.regularizerNorm(), NORM[kind], "norm"); c.check(reg.regularizationType() == T[kind], "type");
   typedef opengm::learning::WeightConstraints<double> C; std::vector<double> lo(n, -std::numeric_limits<double>::infinity()), hi(n, std::numeric_limits<double>::infinity()); C con(n); if(c.flip()) { for(int i = 0; i < n; ++i) { lo[i] = -i - 1; hi[i] = i; } con = C(lo.begin(), lo.end(), hi.begin()); }
   struct K { size_t n; double lo, hi; }; std::vector<K> ks; for(int d = 0; d < 3; ++d) { int o = c.choose(4); if(o == 0) break; if(o == 1) { for(double& x : lo) x -= 2; con.setLowerBounds(lo.begin(), lo.end()); } else if(o == 2) { for(double& x : hi) x += 2; con.setUpperBounds(hi.begin(), hi.end()); } else { std::vector<size_t> ix; std::vector<double> co; K k; k.n = c.choose(n + 1); for(size_t i = 0; i < k.n; ++i) { ix.push_back(i); co.push_back(1 + i); } k.lo = -d - 1; k.hi = d + 2; con.addConstraint(ix.begin(), ix.end(), co.begin(), k.lo, k.hi); ks.push_back(k); }
      for(int i = 0; i < n; ++i) { c.eq(con.weightLowerBound(i), lo[i], "lower bound of a weight"); c.eq(con.weightUpperBound(i), hi[i], "upper bound of a weight"); } c.check(con.weightLowerBounds() == lo && con.weightUpperBounds() == hi, "bounds of the weights"); c.eq(con.numberOfConstraints(), ks.size(), "number of constraints");
      c.eq(con.constraintLowerBounds().size(), ks.size(), "lower bounds of the constraints"); c.eq(con.constraintUpperBounds().size(), ks.size(), "upper bounds of the constraints"); c.eq(con.constraintSizes().size(), ks.size(), "sizes of the constraints"); for(size_t k = 0; k < ks.size(); ++k) { c.eq(con.constraintSize(k), ks[k].n, "size of a constraint"); c.eq(con.constraintSizes()[k], ks[k].n, "size of a constraint"); c.eq(con.constraintLowerBound(k), ks[k].lo, "lower bound of a constraint"); c.eq(con.constraintUpperBound(k), ks[k].hi, "upper bound of a constraint"); }
   }
}
