// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -fsanitize=address -fno-sanitize-recover=all
// C28: every short history of every kind of label space, and models over them.
#include "models.hxx"
#include <cstdint>
#include <list>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/graphicalmodel/space/static_simplediscretespace.hxx>
#include <opengm/graphicalmodel/space/grid_space.hxx>
#include <opengm/graphicalmodel/space/viewspace.hxx>
#include <opengm/graphicalmodel/space/vector_view_space.hxx>
#include <opengm/inference/bruteforce.hxx>
typedef std::vector<int> Ref;
static bool uniform(const Ref& r) { for(int l : r) if(l != r[0]) return false; return true; }
template<class S> static void same(mc::Ctx& c, const S& s, const Ref& r) {
   c.eq((size_t)s.numberOfVariables(), r.size(), "number of variables"); for(size_t i = 0; i < r.size(); ++i) c.eq((long long)s.numberOfLabels((typename S::IndexType)i), (long long)r[i], "number of labels"); c.eq((bool)s.isSimpleSpace(), uniform(r), "uniformity");
}
template<class S> struct Kind; // how a kind of space is filled: sets(c, s, r) constructs or assigns, false if the kind cannot
static const int LABELS[] = {1, 2, 3, 300};
template<class S> static int anyLabels(mc::Ctx& c) { return LABELS[c.tier(1, 0) + c.choose(sizeof(typename S::LabelType) == 1 ? c.tier(2, 3) : c.tier(3, 4))]; }
template<class S> static std::vector<typename S::LabelType> anyList(mc::Ctx& c, int maxVariables) { std::vector<typename S::LabelType> v(c.choose(maxVariables + 1)); for(auto& x : v) x = (typename S::LabelType)anyLabels<S>(c); return v; }
template<class V> static Ref asRef(const V& v) { return Ref(v.begin(), v.end()); }
// an operation that may be rejected: either as specified or an error that leaves the space alone
template<class S, class F> static void attempt(mc::Ctx& c, S& s, Ref& r, const Ref& next, bool must, bool may, F f, const char* what) {
   bool threw = false; try { f(s); } catch(std::exception&) { threw = true; }
   if(threw) { if(must) c.fail(std::string("rejected: ") + what); } else if(!may) c.fail(std::string("accepted what it cannot represent: ") + what);
   if(!threw) r = next; same(c, s, r);
}
enum What { GENERAL, SIMPLE, STATIC, GRID };
template<class S> static void fresh(mc::Ctx& c, S& s, Ref& r, opengm::DiscreteSpace<typename S::IndexType, typename S::LabelType>*) {
   typedef typename S::LabelType L; auto v = anyList<S>(c, 2); switch(c.choose(3)) { case 0: { S t(v.begin(), v.end()); s = t; break; } case 1: s.assign(v.begin(), v.end()); break; default: { std::list<L> l(v.begin(), v.end()); s.assignDense(l.begin(), l.end()); } } r = asRef(v);
}
template<class S> static void fresh(mc::Ctx& c, S& s, Ref& r, opengm::SimpleDiscreteSpace<typename S::IndexType, typename S::LabelType>*) {
   typedef typename S::LabelType L; if(c.flip()) { int n = c.choose(4), l = anyLabels<S>(c); if(c.flip()) { S t(n, (L)l); s = t; } else s.assign(n, (L)l); r.assign(n, l); }
   else { auto v = anyList<S>(c, 3); Ref n = asRef(v); attempt(c, s, r, n, uniform(n), uniform(n), [&](S& x) { x.assignDense(v.begin(), v.end()); }, "a dense assignment"); }
}
template<class S> static void fresh(mc::Ctx& c, S& s, Ref& r, opengm::StaticSimpleDiscreteSpace<2, typename S::IndexType, typename S::LabelType>*) {
   if(c.flip()) { int n = c.choose(4); if(c.flip()) { S t(n); s = t; } else s.assign(n); r.assign(n, 2); }
   else { auto v = anyList<S>(c, 3); Ref n = asRef(v); bool ok = std::count(n.begin(), n.end(), 2) == (int)n.size(); attempt(c, s, r, n, ok, ok, [&](S& x) { x.assignDense(v.begin(), v.end()); }, "a dense assignment"); }
}
template<class S> static void fresh(mc::Ctx& c, S& s, Ref& r, opengm::GridSpace<typename S::IndexType, typename S::LabelType>*) {
   typedef typename S::LabelType L; if(c.flip()) { int x = c.choose(4), y = c.choose(4), l = anyLabels<S>(c); if(c.flip()) { S t(x, y, (L)l); s = t; } else s.assign(x, y, (L)l); r.assign(x * y, l); c.eq((int)s.dimX(), x, "grid width"); c.eq((int)s.dimY(), y, "grid height"); c.eq((int)s.numberOfLabels(), l, "labels of the grid"); for(int i = 0; i < x; ++i) for(int j = 0; j < y; ++j) c.eq((int)s.numberOfLabels(i, j), l, "labels at a grid position"); }
   else { auto v = anyList<S>(c, 2); attempt(c, s, r, asRef(v), false, false, [&](S& x) { x.assignDense(v.begin(), v.end()); }, "a dense assignment"); }
}
template<class S> static void history(mc::Ctx& c, What what, int depth) {
   S s, backup; Ref r, kept; bool hasBackup = false, touched = false; int labels = 0; same(c, s, r);
   for(int d = 0; d < depth; ++d) {
      switch(c.choose(hasBackup ? 4 : 3)) {
      case 0: { auto before = s; fresh(c, s, r, (S*)0); touched = true; (void)before; break; }
      case 1: { int l = anyLabels<S>(c); Ref n = r; n.push_back(l); bool fits = what == GENERAL || (what == STATIC ? l == 2 : what == SIMPLE && uniform(n)); attempt(c, s, r, n, fits && (what != SIMPLE || r.size() > 0), fits && what != GRID, [&](S& x) { auto k = x.addVariable((typename S::LabelType)l); c.eq((size_t)k, n.size() - 1, "index of an added variable"); }, "an added variable"); break; }
      case 2: backup = s; kept = r; hasBackup = true; { S t(s); same(c, t, r); } break;
      default: { S t(s); s = backup; std::swap(r, kept); backup = t; }
      }
      same(c, s, r); if(hasBackup) same(c, backup, kept); c.step(); (void)touched; (void)labels;
   }
   uint64_t h = r.size() * 8 + what; for(int l : r) h = mc::mix(h, l); c.state(mc::mix(h, sizeof(typename S::IndexType) * 16 + sizeof(typename S::LabelType))); c.outcome(h); MC_TRACE(c, show(r));
}
template<class I, class L> static void histories(mc::Ctx& c, int depth) {
   switch(c.choose(4)) { case 0: history<opengm::DiscreteSpace<I, L> >(c, GENERAL, std::min(depth, c.tier(3, 4))); break; case 1: history<opengm::SimpleDiscreteSpace<I, L> >(c, SIMPLE, std::min(depth, c.tier(2, 3))); break; case 2: history<opengm::StaticSimpleDiscreteSpace<2, I, L> >(c, STATIC, std::min(depth, c.tier(2, 3))); break; default: history<opengm::GridSpace<I, L> >(c, GRID, std::min(depth, c.tier(2, 3))); }
}
MC_SCENARIO("histories/default") { histories<size_t, size_t>(c, 9); }
MC_SCENARIO("histories/narrow-index") { histories<uint8_t, uint16_t>(c, 2); }
MC_SCENARIO("histories/narrow-labels") { histories<uint32_t, uint8_t>(c, 2); }
MC_SCENARIO("histories/mixed") { histories<int, uint64_t>(c, 2); }

// views of other spaces follow the space they look at
template<class I, class L> static void views(mc::Ctx& c) {
   typedef opengm::DiscreteSpace<I, L> Sp; typedef opengm::GraphicalModel<double, opengm::Adder, opengm::ExplicitFunction<double, I, L>, Sp> GM; typedef opengm::ViewSpace<GM> VS; typedef opengm::VectorViewSpace<I, L> VV;
   auto v = anyList<Sp>(c, 4), w = anyList<Sp>(c, 1); GM gm(Sp(v.begin(), v.end())), other(Sp(w.begin(), w.end())); Ref r = asRef(v); VS s(gm), t; t.assign(other); same(c, s, r); same(c, t, asRef(w));
   attempt(c, s, r, r, false, false, [&](VS& x) { x.addVariable(2); }, "an added variable"); attempt(c, s, r, r, false, false, [&](VS& x) { x.assignDense(v.begin(), v.end()); }, "a dense assignment");
   if(c.flip()) { gm.addVariable(3); r.push_back(3); same(c, s, r); } t = s; same(c, t, r); VS u(t); same(c, u, r); c.step();
   if(v.empty()) return; VV x(v); r = asRef(v); same(c, x, r); attempt(c, x, r, r, false, false, [&](VV& y) { y.addVariable(2); }, "an added variable"); attempt(c, x, r, r, false, false, [&](VV& y) { y.assignDense(v.begin(), v.end()); }, "a dense assignment"); VV y; y = x; same(c, y, r); v.push_back(2); r.push_back(2); same(c, x, r); v[0] = 1; r[0] = 1; same(c, y, r);
   uint64_t h = 3; for(int l : r) h = mc::mix(h, l); c.state(h); c.outcome(h);
}
MC_SCENARIO("views/default") { views<size_t, size_t>(c); }
MC_SCENARIO("views/narrow") { views<uint8_t, uint16_t>(c); }

// a model over any kind of space with the same label counts is the same model
template<class GM, class R> static void sameModel(mc::Ctx& c, GM& gm, const R& r) {
   typedef typename GM::IndexType I; typedef typename GM::LabelType L;
   c.eq((size_t)gm.numberOfVariables(), r.L.size(), "number of variables of the model"); for(size_t i = 0; i < r.L.size(); ++i) c.eq((long long)gm.numberOfLabels((I)i), (long long)r.L[i], "number of labels in the model"); c.eq((bool)gm.space().isSimpleSpace(), uniform(r.L), "uniformity of the space of a model");
   std::vector<L> lab(r.L.size(), 0); std::vector<int> q(r.L.size(), 0); const bool small = r.size() <= 3000; RefModel corners = r; if(!small) for(int& l : corners.L) l = std::min(l, 3); do { lab.clear(); std::vector<int> p(q); for(size_t i = 0; i < q.size(); ++i) { if(!small && q[i] == 2) p[i] = r.L[i] - 1; lab.push_back((L)p[i]); } c.eq((double)gm.evaluate(lab.begin()), r.eval(p), "value of a labeling"); } while(corners.next(q));
   for(size_t f = 0; f < r.f.size(); ++f) { size_t n = 1; for(size_t j = 0; j < r.f[f].v.size(); ++j) { c.eq((long long)gm[(I)f].numberOfLabels((I)j), (long long)r.L[r.f[f].v[j]], "labels of a variable of a factor"); c.eq((long long)gm[(I)f].shape((I)j), (long long)r.L[r.f[f].v[j]], "shape of a factor"); n *= r.L[r.f[f].v[j]]; } c.eq((size_t)gm[(I)f].size(), n, "table size of a factor"); }
   if(!small) return; opengm::Bruteforce<GM, opengm::Minimizer> bf(gm); bf.infer(); std::vector<L> a; bf.arg(a); c.check(validLabeling(r, a), "labeling of the optimum"); c.eq((double)bf.value(), r.best(false, false), "optimum");
}
template<class GM> static void fillModel(mc::Ctx& c, GM& gm, RefModel r, bool grow, int l) {
   for(size_t i = 0; i < r.f.size(); ++i) addExplicit(gm, r, i); sameModel(c, gm, r); GM copy(gm), other; sameModel(c, copy, r); other = gm; sameModel(c, other, r);
   if(grow) { bool ok = true; try { gm.addVariable((typename GM::LabelType)l); } catch(std::exception&) { ok = false; } if(ok) { r.L.push_back(l); RefFactor f; f.v = {0, (int)r.L.size() - 1}; if(r.L.size() == 1) f.v = {0}; r.f.push_back(f); fillPattern(r, (int)r.f.size() - 1, 1); addExplicit(gm, r, r.f.size() - 1); } sameModel(c, gm, r); c.outcome(ok ? 2 : 1); } else c.outcome(0);
   gm.assign(copy.space()); RefModel e; e.L.assign(r.L.begin(), r.L.end()); e.L.resize((size_t)copy.numberOfVariables()); sameModel(c, gm, e);
}
template<class I, class L> static void models(mc::Ctx& c, int n, const std::vector<int>& lab, int k, int extra) {
   RefModel r = anyModel(c, n, lab, k, 0, 2, 1); if(n > 1 && c.flip()) std::fill(r.L.begin(), r.L.end(), r.L[0]); for(size_t i = 0; i < r.f.size(); ++i) fillPattern(r, (int)i, 0); bool grow = c.flip(); if(r.size() * (grow ? extra : 1) > 100000) c.prune(); c.state(r.hash()); MC_TRACE(c, r.str()); c.step();
   typedef opengm::DiscreteSpace<I, L> S0; typedef opengm::SimpleDiscreteSpace<I, L> S1; typedef opengm::StaticSimpleDiscreteSpace<2, I, L> S2; typedef opengm::GridSpace<I, L> S3; typedef opengm::VectorViewSpace<I, L> S4; typedef opengm::ExplicitFunction<double, I, L> F; typedef opengm::GraphicalModel<double, opengm::Adder, F, S0> G0; typedef opengm::ViewSpace<G0> S5;
   std::vector<L> v(r.L.begin(), r.L.end()); bool u = uniform(r.L); G0 g0(S0(v.begin(), v.end()));
   switch(c.choose(7)) {
   case 0: fillModel(c, g0, r, grow, extra); break;
   case 1: { if(!u) c.prune(); opengm::GraphicalModel<double, opengm::Adder, F, S1> g(S1((I)n, (L)(n ? r.L[0] : 2))); fillModel(c, g, r, grow, grow && n && r.size() < 1000 && c.flip() ? r.L[0] : extra); break; }
   case 2: { if(!u || (n && r.L[0] != 2)) c.prune(); S2 s((I)n); opengm::GraphicalModel<double, opengm::Adder, F, S2> g(s); fillModel(c, g, r, grow, grow && c.flip() ? 2 : extra); break; }
   case 3: { if(!u) c.prune(); opengm::GraphicalModel<double, opengm::Adder, F, S3> g(n == 4 ? S3(2, 2, (L)r.L[0]) : S3(1, (I)n, (L)(n ? r.L[0] : 2))); fillModel(c, g, r, grow, extra); break; }
   case 4: { if(!n) c.prune(); opengm::GraphicalModel<double, opengm::Adder, F, S4> g{S4(v)}; fillModel(c, g, r, grow, extra); break; }
   case 5: { opengm::GraphicalModel<double, opengm::Adder, F, S5> g{S5(g0)}; fillModel(c, g, r, grow, extra); break; }
   default: { G0 g; for(int l : r.L) g.addVariable((L)l); fillModel(c, g, r, grow, extra); }
   }
}
MC_SCENARIO("models/default") { int n = c.range(0, c.tier(3, 4)); models<size_t, size_t>(c, n, {2, 3}, n ? c.range(0, n < 4 ? 2 : 1) : 0, 3); }
MC_SCENARIO("models/narrow-index") { int n = c.range(0, 2); models<uint8_t, uint16_t>(c, n, {2, 300}, n ? c.range(0, 2) : 0, 3); }
MC_SCENARIO("models/narrow-labels") { int n = c.range(0, 3); models<uint32_t, uint8_t>(c, n, {1, 2, 200}, n ? 1 : 0, 4); }
