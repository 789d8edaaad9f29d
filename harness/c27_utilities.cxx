// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -fsanitize=address -fno-sanitize-recover=all
// C27: iterators, walkers, sorting helpers, three-valued logic against their definitions.
#include "models.hxx"
#include <cstdint>
#include <sstream>
#include <stdexcept>
#include <opengm/utilities/accessor_iterator.hxx>
#include <opengm/utilities/shape_accessor.hxx>
#include <opengm/utilities/vector_view.hxx>
#include <opengm/utilities/subsequence_iterator.hxx>
#include <opengm/utilities/indexing.hxx>
#include <opengm/utilities/sorting.hxx>
#include <opengm/utilities/tribool.hxx>
#include <opengm/utilities/unsigned_integer_pow.hxx>

struct Item { int v; int tag; Item(int x = 0) : v(x), tag(7) {} operator int() const { return v; } };
// the accessor of the documentation
template<class T, bool isConst> class VectorAccessor {
public:
   typedef T value_type;
   typedef typename opengm::meta::If<isConst, const value_type&, value_type&>::type reference;
   typedef typename opengm::meta::If<isConst, const std::vector<value_type>&, std::vector<value_type>&>::type vector_reference;
   typedef typename opengm::meta::If<isConst, const std::vector<value_type>*, std::vector<value_type>*>::type vector_pointer;
   VectorAccessor(vector_pointer v = 0) : vector_(v) {}
   VectorAccessor(vector_reference v) : vector_(&v) {}
   size_t size() const { return vector_ == 0 ? 0 : vector_->size(); }
   reference operator[](const size_t j) { return (*vector_)[j]; }
   const value_type& operator[](const size_t j) const { return (*vector_)[j]; }
   template<bool other> bool operator==(const VectorAccessor<T, other>& o) const { return vector_ == o.vector_; }
   vector_pointer vector_;
};
static uint64_t hashOf(const std::vector<long long>& v) { uint64_t h = v.size(); for(auto x : v) h = mc::mix(h, x); return h; }

// one iterator `it` that should stand at `at` of the sequence `e` that starts at `begin`; CONST: also read through a const iterator
template<class It> static void stands(mc::Ctx& c, It it, long long at, const It begin, const std::vector<long long>& e) {
   long long n = e.size(); const It cit(it);
   if(at < n) { c.eq((long long)*it, e[at], "dereference"); c.eq((long long)*cit, e[at], "dereference of a const iterator"); }
   for(long long j = 0; at + j < n; ++j) { c.eq((long long)it[j], e[at + j], "subscript"); c.eq((long long)cit[j], e[at + j], "subscript of a const iterator"); }
   c.eq((long long)(it - begin), at, "distance"); c.eq((long long)(begin - it), -at, "backward distance");
   for(long long k = 0; k <= n; ++k) { const It o = begin + k; c.eq(cit == o, at == k, "=="); c.eq(cit != o, at != k, "!="); c.eq(cit < o, at < k, "<"); c.eq(cit > o, at > k, ">"); c.eq(cit <= o, at <= k, "<="); c.eq(cit >= o, at >= k, ">="); }
}
template<class It> static It plusFront(long long k, const It& it, int) { return k + it; }
template<class It, class D> static void walk(mc::Ctx& c, const It begin, const std::vector<long long>& e, int depth, D plus) {
   long long n = e.size(), at = 0; It it(begin); std::string t;
   for(int d = 0; d < depth; ++d) {
      switch(c.choose(9)) {
      case 0: if(at == n) c.prune(); { It& r = ++it; c.check(&r == &it, "++ returns the iterator itself"); } ++at; break;
      case 1: if(at == n) c.prune(); { It old = it++; stands(c, old, at, begin, e); } ++at; break;
      case 2: if(at == 0) c.prune(); { It& r = --it; c.check(&r == &it, "-- returns the iterator itself"); } --at; break;
      case 3: if(at == 0) c.prune(); { It old = it--; stands(c, old, at, begin, e); } --at; break;
      case 4: { int k = c.choose((int)(n - at) + 1); it += k; at += k; break; }
      case 5: { int k = c.choose((int)at + 1); it -= k; at -= k; break; }
      case 6: { int k = c.choose((int)(n - at) + 1); const It old(it); It x = old + k; stands(c, old, at, begin, e); it = x; at += k; break; }
      case 7: { int k = c.choose((int)at + 1); const It old(it); It x = old - k; stands(c, old, at, begin, e); it = x; at -= k; break; }
      default: { int k = c.choose((int)(n - at) + 1); it = plus(k, it); at += k; }
      }
      stands(c, it, at, begin, e); c.step(); c.state(mc::mix(mc::mix(hashOf(e), at), d));
   }
   std::vector<long long> all; for(It i(begin); i != begin + n; ++i) all.push_back((long long)*i); c.check(all == e, "the sequence passed over by incrementing is not the sequence");
   std::vector<long long> back; for(It i = begin + n; i != begin; ) { --i; back.push_back((long long)*i); } std::reverse(back.begin(), back.end()); c.check(back == e, "the sequence passed over by decrementing is not the sequence");
   c.outcome(mc::mix(hashOf(e), at));
}
struct Front { template<class It> It operator()(long long k, const It& it) const { return k + it; } };
struct NoFront { template<class It> It operator()(long long k, const It& it) const { return it + k; } };

template<class T> static void vectors(mc::Ctx& c) {
   int n = c.choose(c.tier(4, 5)); std::vector<T> v; std::vector<long long> e; for(int i = 0; i < n; ++i) { v.push_back(T(3 * i + 1)); e.push_back(3 * i + 1); }
   typedef VectorAccessor<T, false> MA; typedef VectorAccessor<T, true> CA; typedef opengm::AccessorIterator<MA, false> MI; typedef opengm::AccessorIterator<CA, true> CI; typedef opengm::AccessorIterator<MA, true> CMI;
   const std::vector<T>& cv = v; int kind = c.choose(3), depth = c.tier(3, 4);
   if(kind == 0) walk(c, MI(MA(v)), e, depth, Front()); else if(kind == 1) walk(c, CI(CA(cv)), e, depth, Front()); else walk(c, CMI(MA(v)), e, depth, Front());
   for(int i = 0; i <= n; ++i) for(int j = 0; j <= n; ++j) { MI a(MA(v), i); CMI b(MA(v), j); c.eq(a == b, i == j, "mixed =="); c.eq(a != b, i != j, "mixed !="); c.eq(b < a, j < i, "mixed <"); c.eq(a > b, i > j, "mixed >"); c.eq(a <= b, i <= j, "mixed <="); c.eq(b >= a, j >= i, "mixed >="); c.eq((long long)(a - b), (long long)(i - j), "mixed distance"); }
   for(int i = 0; i < n; ++i) { // writing through the mutable iterator
      MI it(MA(v), 0); it += i; *it = T(100 + i); c.eq((long long)(int)v[i], (long long)(100 + i), "write"); it[0] = T(200 + i); c.eq((long long)(int)v[i], (long long)(200 + i), "write by subscript"); for(int j = 0; j < n; ++j) if(j != i) c.eq((long long)(int)v[j], j < i ? 200LL + j : e[j], "write changed another element");
   }
}
MC_SCENARIO("accessor/int") { vectors<int>(c); }
MC_SCENARIO("accessor/double") { vectors<double>(c); }
MC_SCENARIO("accessor/class") { vectors<Item>(c); std::vector<Item> v(3, Item(5)); typedef opengm::AccessorIterator<VectorAccessor<Item, false>, false> I; I i((VectorAccessor<Item, false>(v))); const I ci(i); c.eq(i->tag, 7, "arrow"); c.eq(ci->v, 5, "arrow of a const iterator"); (i + 1)->v = 9; c.eq(v[1].v, 9, "write through the arrow"); }
MC_SCENARIO("accessor/algorithms") { // standard algorithms over accessor iterators
   int n = c.choose(c.tier(6, 7)); std::vector<int> v(n); for(auto& x : v) x = c.choose(n < 4 ? 4 : 3); std::vector<int> e(v), w(v); typedef opengm::AccessorIterator<VectorAccessor<int, false>, false> I; VectorAccessor<int, false> a(w); I b(a, 0), z(a, n);
   std::sort(e.begin(), e.end()); std::sort(b, z); c.check(w == e, "std::sort over accessor iterators"); for(int k = -1; k < 5; ++k) { c.eq((long long)(std::lower_bound(b, z, k) - b), (long long)(std::lower_bound(e.begin(), e.end(), k) - e.begin()), "std::lower_bound"); c.eq((long long)std::count(b, z, k), (long long)std::count(v.begin(), v.end(), k), "std::count"); c.eq((long long)(std::find(b, z, k) - b), (long long)(std::find(e.begin(), e.end(), k) - e.begin()), "std::find"); }
   w = v; std::reverse(b, z); c.check(std::equal(v.rbegin(), v.rend(), w.begin()), "std::reverse"); w = v; if(n) { std::rotate(b, b + n / 2, z); std::vector<int> r(v); std::rotate(r.begin(), r.begin() + n / 2, r.end()); c.check(r == w, "std::rotate"); std::vector<int> d(b, z); c.check(d == w, "construction of a vector from the iterators"); }
   w = v; std::partial_sum(b, z, b); std::vector<int> s(v); std::partial_sum(s.begin(), s.end(), s.begin()); c.check(s == w, "std::partial_sum"); c.eq((long long)std::distance(b, z), (long long)n, "std::distance"); I m(b); std::advance(m, n / 2); c.eq((long long)(m - b), (long long)(n / 2), "std::advance");
   uint64_t h = n; for(int x : v) h = mc::mix(h, x); c.state(h); c.outcome(h);
}
MC_SCENARIO("accessor/factors") { // iterators over shapes, variables and labels of the factors of every small model
   typedef GmOf<double, opengm::Adder>::type GM; int n = 1 + c.choose(4); RefModel m; for(int i = 0; i < n; ++i) m.L.push_back(1 + c.choose(3)); std::vector<int> vars; for(int i = 0; i < n; ++i) if(c.flip()) vars.push_back(i);
   m.f.push_back(RefFactor()); m.f[0].v = vars; fillPattern(m, 0, 1);
   GM gm; build(gm, m); const GM::FactorType& f = gm[0]; std::vector<size_t> lab(n); for(int i = 0; i < n; ++i) lab[i] = 10 + 3 * i;
   std::vector<long long> shape, index, labels; for(int v : vars) { shape.push_back(m.L[v]); index.push_back(v); labels.push_back(lab[v]); }
   typedef opengm::AccessorIterator<opengm::FactorVariablesAccessor<GM::FactorType>, true> VI; typedef opengm::FactorShapeAccessor<GM::FactorType> SA; typedef opengm::AccessorIterator<SA, true> SI;
   typedef opengm::GmLabelFactorLabelAccessor<GM::FactorType, std::vector<size_t>::const_iterator> LA; typedef opengm::AccessorIterator<LA, true> LI; typedef opengm::SubsetAccessor<std::vector<int>::const_iterator, std::vector<size_t>::const_iterator> BA; typedef opengm::AccessorIterator<BA, true> BI;
   std::vector<size_t>::const_iterator lb = lab.begin(); const std::vector<int>& cvars = vars; int depth = c.tier(2, 3);
   switch(c.choose(5)) {
   case 0: walk(c, SI(SA(f), 0), shape, depth, Front()); c.eq((size_t)SA(f).size(), shape.size(), "size of the shape"); break;
   case 1: walk(c, VI(opengm::FactorVariablesAccessor<GM::FactorType>(f), 0), index, depth, Front()); break;
   case 2: walk(c, LI(LA(f, lb), 0), labels, depth, Front()); break;
   case 3: walk(c, BI(BA(cvars.begin(), cvars.end(), lb), 0), labels, depth, Front()); break;
   default: walk(c, f.shapeBegin(), shape, depth, Front()); c.eq((long long)(f.shapeEnd() - f.shapeBegin()), (long long)shape.size(), "length of the shape"); c.check(std::equal(f.variableIndicesBegin(), f.variableIndicesEnd(), index.begin()), "variable indices");
   }
   { GM::FactorType g(f); opengm::FactorVariablesAccessor<GM::FactorType> a(f), b(g), d(f), none; c.check(a == d && !(a == b) && !(a == none), "accessors are equal if they show the same factor"); c.eq((size_t)none.size(), (size_t)0, "size of an accessor of nothing"); LA x(f, lb), y(f, lb), z(g, lb), w(f, lb + 1); c.check(x == y && !(x == z) && !(x == w), "label accessors are equal if they show the same labels of the same factor"); }
   SA none; c.eq((size_t)none.size(), (size_t)0, "size of an accessor of nothing");
}
MC_SCENARIO("subsequence") {
   int n = 1 + c.choose(3), k = c.choose(c.tier(3, 4) + 1); std::vector<double> s; for(int i = 0; i < n; ++i) s.push_back(5 + 2 * i); std::vector<size_t> ix; std::vector<long long> e; for(int i = 0; i < k; ++i) { ix.push_back(c.choose(n)); e.push_back((long long)s[ix[i]]); }
   typedef opengm::SubsequenceIterator<std::vector<double>::const_iterator, std::vector<size_t>::const_iterator> It; It begin(s.begin(), ix.begin()), end(s.begin(), ix.begin(), k); c.check(begin + k == end, "end of a subsequence"); It def; def = begin; c.check(def == begin, "assignment"); walk(c, begin, e, 2, NoFront());
   std::vector<Item> o(s.begin(), s.end()); typedef opengm::SubsequenceIterator<std::vector<Item>::const_iterator, std::vector<size_t>::const_iterator> OI; for(int i = 0; i < k; ++i) { OI it(o.begin(), ix.begin(), i); c.eq((long long)it->v, e[i], "arrow"); c.eq((long long)(std::find(begin, end, (double)e[i]) - begin), (long long)(std::find(e.begin(), e.end(), e[i]) - e.begin()), "std::find in a subsequence"); }
   c.eq((long long)std::distance(begin, end), (long long)k, "std::distance");
}
// ---- walkers: the reference is plain counting
typedef std::vector<size_t> Tuple;
static std::vector<Tuple> counted(const Tuple& shape, bool lastFastest) { std::vector<Tuple> r; size_t n = 1; for(size_t s : shape) n *= s; for(size_t i = 0; i < n; ++i) { Tuple t(shape.size()); size_t x = i; for(size_t j = 0; j < shape.size(); ++j) { size_t d = lastFastest ? shape.size() - 1 - j : j; t[d] = x % shape[d]; x /= shape[d]; } r.push_back(t); } return r; }
template<class S> static Tuple tup(const S& s) { return Tuple(s.begin(), s.end()); }
static std::string st(const Tuple& t) { std::string s; for(size_t x : t) s += " " + std::to_string(x); return s; }
static Tuple anyShape(mc::Ctx& c, int dims, int most) { Tuple s(c.choose(dims + 1)); for(auto& x : s) x = 1 + c.choose(most); return s; }
static void tup(mc::Ctx& c, const Tuple& got, const Tuple& want, const char* what) { if(got != want) c.fail(std::string(what) + ":" + st(got) + " expected" + st(want)); }
MC_SCENARIO("walkers/plain") {
   Tuple s = anyShape(c, c.tier(4, 5), c.tier(3, 4)); auto a = counted(s, false), b = counted(s, true); opengm::ShapeWalker<Tuple::const_iterator> w(s.begin(), s.size()); opengm::ShapeWalkerSwitchedOrder<Tuple::const_iterator> x(s.begin(), s.size());
   size_t cut = c.choose((int)std::min<size_t>(a.size(), 4)); for(size_t i = 0; i < cut; ++i) ++w; w.reset();
   for(size_t i = 0; i < a.size(); ++i) { tup(c, tup(w.coordinateTuple()), a[i], "first coordinate fastest"); tup(c, tup(x.coordinateTuple()), b[i], "last coordinate fastest"); ++w; ++x; c.step(); }
   std::vector<int> si(s.begin(), s.end()); opengm::ShapeWalker<std::vector<int>::const_iterator> wi(si.begin(), si.size()); for(auto& t : a) { tup(c, tup(wi.coordinateTuple()), t, "signed shape"); ++wi; }
   uint64_t h = s.size(); for(size_t y : s) h = mc::mix(h, y); c.state(h); c.outcome(h);
}
template<class I, class V> static void sub(mc::Ctx& c) {
   Tuple s = anyShape(c, c.tier(3, 4), 3); std::vector<int> order; std::vector<std::pair<size_t, size_t> > fixed; for(size_t d = 0; d < s.size(); ++d) if(c.flip()) { size_t at = c.choose((int)fixed.size() + 1); fixed.insert(fixed.begin() + at, std::make_pair(d, (size_t)c.choose((int)s[d]))); }
   I ix(fixed.size()); V val(fixed.size()); for(size_t i = 0; i < fixed.size(); ++i) { ix[i] = fixed[i].first; val[i] = fixed[i].second; }
   opengm::SubShapeWalker<Tuple::const_iterator, I, V> w(s.begin(), s.size(), ix, val); std::vector<Tuple> want; for(auto& t : counted(s, false)) { bool in = true; for(auto& f : fixed) in = in && t[f.first] == f.second; if(in) want.push_back(t); }
   c.eq((size_t)w.subSize(), want.size(), "number of tuples"); int passes = c.choose(2); for(int p = 0; p <= passes; ++p) { for(size_t i = 0; i < want.size(); ++i) { tup(c, tup(w.coordinateTuple()), want[i], "sub-shape"); ++w; c.step(); } w.resetCoordinate(); }
   c.eq((size_t)w.subSize(), want.size(), "number of tuples after walking"); uint64_t h = s.size(); for(size_t y : s) h = mc::mix(h, y); for(auto& f : fixed) h = mc::mix(h, f.first * 8 + f.second); c.state(h); c.outcome(h);
}
MC_SCENARIO("walkers/fixed") { if(c.flip()) sub<std::vector<size_t>, std::vector<size_t> >(c); else sub<opengm::FastSequence<size_t>, opengm::FastSequence<size_t> >(c); }
MC_SCENARIO("walkers/merged") { // two and three tuples walked together: A and B over sorted variables, AB over their union
   int n = 1 + c.choose(c.tier(3, 4)); Tuple s, ab, a, b, s0(n); std::vector<size_t> ia, ib; for(int v = 0; v < n; ++v) { s.push_back(1 + c.choose(3)); int w = c.choose(3); ab.push_back(2 * v + 1); if(w != 1) { a.push_back(2 * v + 1); ia.push_back(v); } if(w != 0) { b.push_back(2 * v + 1); ib.push_back(v); } }
   auto all = counted(s, false); if(c.flip()) { if(a.empty() || b.empty()) c.prune(); opengm::TripleShapeWalker<Tuple::const_iterator> w(s.begin(), s.size(), ab, a, b); for(int pass = 0; pass < 2; ++pass) for(auto& t : all) { Tuple ta, tb; for(size_t i : ia) ta.push_back(t[i]); for(size_t i : ib) tb.push_back(t[i]); tup(c, tup(w.coordinateTupleAB()), t, "union"); tup(c, tup(w.coordinateTupleA()), ta, "first"); tup(c, tup(w.coordinateTupleB()), tb, "second"); ++w; c.step(); } }
   else { opengm::DoubleShapeWalker<Tuple::const_iterator> w(s.begin(), s.size(), ab, a); for(int pass = 0; pass < 2; ++pass) for(auto& t : all) { Tuple ta; for(size_t i : ia) ta.push_back(t[i]); tup(c, tup(w.coordinateTupleAB()), t, "all variables"); tup(c, tup(w.coordinateTupleA()), ta, "some variables"); ++w; c.step(); } }
   uint64_t h = n; for(size_t y : s) h = mc::mix(h, y); for(size_t y : a) h = mc::mix(h, y); h = mc::mix(h, 99); for(size_t y : b) h = mc::mix(h, y); c.state(h); c.outcome(h);
}
// ---- sorting
template<class K> static void sorting(mc::Ctx& c) {
   int n = c.choose(c.tier(6, 7)), values = c.tier(n < 5 ? 4 : 3, 4); std::vector<K> k(n); for(auto& x : k) x = (K)(c.choose(values) * 2 + 1); std::vector<std::pair<K, int> > p; std::vector<int> s; for(int i = 0; i < n; ++i) { s.push_back(10 + i); p.push_back(std::make_pair(k[i], 10 + i)); }
   bool is = std::is_sorted(k.begin(), k.end()); c.eq(opengm::isSorted(k.begin(), k.end()), is, "isSorted"); for(int i = 0; i < n; ++i) c.eq((long long)opengm::iteratorAt(k.begin(), i), (long long)k[i], "iteratorAt"); bool eq = true; for(int i = 1; i < n; ++i) eq = eq && k[i] == k[0]; c.eq(opengm::isEqualValueVector(k), eq, "isEqualValueVector");
   std::vector<K> k2(k); opengm::doubleSort(k2.begin(), k2.end(), s.begin()); c.check(std::is_sorted(k2.begin(), k2.end()), "keys are not sorted"); std::vector<std::pair<K, int> > q; for(int i = 0; i < n; ++i) q.push_back(std::make_pair(k2[i], s[i])); std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); c.check(p == q, "keys and values were separated");
   if(is) { bool strict = std::adjacent_find(k.begin(), k.end()) == k.end(); for(int x = 0; x < 10; ++x) { size_t pos = 77; bool found = opengm::findInSortedSequence(k.begin(), (size_t)n, (K)x, pos); size_t want = std::find(k.begin(), k.end(), (K)x) - k.begin(); c.eq(found, want < (size_t)n, "found"); if(found) { c.check(pos < (size_t)n && k[pos] == (K)x, "position of what was found"); if(strict) c.eq(pos, want, "position"); } } }
   uint64_t h = n; for(K x : k) h = mc::mix(h, (uint64_t)x); c.state(h); c.outcome(h);
}
MC_SCENARIO("sorting") { if(c.flip()) sorting<size_t>(c); else sorting<int>(c); }
MC_SCENARIO("views") { // windows into a vector
   int n = c.choose(5); std::vector<int> v; for(int i = 0; i < n; ++i) v.push_back(11 * i + 2); int start = c.choose(n + 1), size = c.choose(n - start + 1); typedef opengm::VectorView<std::vector<int>, size_t> View; View w(v, start, size); if(c.flip()) { View x(v, n - n / 2, n / 2); x.assign(v, start, size); w = x; } const View cw(w);
   std::vector<int> e(v.begin() + start, v.begin() + start + size); c.eq((size_t)w.size(), e.size(), "size"); for(int i = 0; i < size; ++i) { c.eq(w[i], e[i], "element"); c.eq(cw[i], e[i], "element of a const view"); } c.check(std::vector<int>(w.begin(), w.end()) == e, "sequence"); c.check(std::vector<int>(cw.begin(), cw.end()) == e, "sequence of a const view");
   std::vector<int> other(v); for(auto& x : other) x += 1; w.assignPtr(other); for(int i = 0; i < size; ++i) c.eq(w[i], e[i] + 1, "element after the vector was exchanged"); c.state(mc::mix(mc::mix(n, start), size)); c.outcome(mc::mix(start, size));
}
MC_SCENARIO("power") { size_t b = c.choose(40), x = c.choose(65), r = 1; for(size_t i = 0; i < x; ++i) { if(b && r > (~size_t(0)) / b) c.prune(); r *= b; } c.eq(opengm::unsignedIntegerPow(b, x), r, "power"); c.state(mc::mix(b, x)); c.outcome(r); }
// ---- three-valued logic: every history of assignments and refinements
static const opengm::Tribool::State STATES[] = {opengm::Tribool::Maybe, opengm::Tribool::False, opengm::Tribool::True};
static void is(mc::Ctx& c, const opengm::Tribool& t, int v) {
   c.eq((bool)t, v == 1, "true"); c.eq(!t, v == 0, "not"); c.eq(t.maybe(), v == -1, "maybe"); c.eq(t == true, v == 1, "== true"); c.eq(t == false, v == 0, "== false"); c.eq(t != true, v != 1, "!= true"); c.eq(t != false, v != 0, "!= false");
   for(int w = -1; w <= 1; ++w) { c.eq(t == w, v == w, "== number"); c.eq(t == STATES[w + 1], v == w, "== state"); c.eq(t != STATES[w + 1], v != w, "!= state"); const opengm::Tribool u(STATES[w + 1]); opengm::Tribool m(STATES[w + 1]); c.eq(t == u, v == w, "== another"); c.eq(t != u, v != w, "!= another"); c.eq(t == m, v == w, "== another (not const)"); c.eq(t != m, v != w, "!= another (not const)"); }
   std::ostringstream o; o << t; c.eq(o.str(), std::to_string(v), "printed");
}
MC_SCENARIO("tribool") {
   opengm::Tribool t; int v = -1; is(c, t, v);
   switch(c.choose(6)) { case 0: { int x = c.choose(4) - 1; opengm::Tribool u(x); t = u; v = x < 0 ? -1 : x != 0; break; } case 1: { bool x = c.flip(); opengm::Tribool u(x); const opengm::Tribool w(u); t = w; v = x; break; } case 2: { int x = c.choose(3) - 1; opengm::Tribool u(STATES[x + 1]); t = u; v = x; break; } case 3: { int x = c.choose(3) - 1; t = STATES[x + 1]; v = x; break; } case 4: { bool x = c.flip(); t = x; v = x; break; } default: { int x = c.choose(4) - 1; t = x; v = x < 0 ? -1 : x != 0; } }
   is(c, t, v);
   for(int d = 0; d < c.tier(2, 3); ++d) { if(c.flip()) { int w = c.choose(3) - 1; t &= STATES[w + 1]; if(v != 0 && w != -1) v = w; } else { int w = c.choose(3) - 1; opengm::Tribool u(STATES[w + 1]); u = u; t = u; v = w; } is(c, t, v); c.step(); }
   c.state(v + 1); c.outcome(v + 1);
}
