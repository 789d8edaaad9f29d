// Reference views: every element of a view is a cell of a memory block.
#ifndef C08_HXX
#define C08_HXX
#include "mc.hxx"
#include <algorithm>
#include <sstream>
#include <string>
#include <vector>
#include <opengm/opengm.hxx>
#include <opengm/datastructures/marray/marray.hxx>
typedef std::vector<size_t> Shape;
inline size_t volume(const Shape& s) { size_t n = 1; for(size_t x : s) n *= x; return n; }
inline bool nextIn(const Shape& s, Shape& k) { for(size_t j = 0; j < s.size(); ++j) { if(++k[j] < s[j]) return true; k[j] = 0; } return false; }   // first coordinate fastest
inline marray::CoordinateOrder order(bool first) { return first ? marray::FirstMajorOrder : marray::LastMajorOrder; }
struct RV {
   Shape s; bool first; std::vector<int> cell;   // cells with the first coordinate fastest
   RV() : first(false) {}
   // consecutive memory from `base`, laid out in the external order
   RV(const Shape& shape, int base, bool external, bool internal) : s(shape), first(internal) { Shape k(s.size(), 0); do { cell.push_back(base + (int)linear(k, external)); } while(nextIn(s, k)); }
   RV(const Shape& shape, const Shape& strides, int base, bool internal) : s(shape), first(internal) { Shape k(s.size(), 0); do { int q = base; for(size_t j = 0; j < k.size(); ++j) q += (int)(k[j] * strides[j]); cell.push_back(q); } while(nextIn(s, k)); }
   size_t size() const { return cell.size(); }
   size_t linear(const Shape& k, bool f) const { size_t q = 0; if(f) for(size_t j = 0; j < s.size(); ++j) q = q * s[j] + k[j]; else for(size_t j = s.size(); j-- > 0;) q = q * s[j] + k[j]; return q; }
   int at(const Shape& k) const { return cell[linear(k, false)]; }
   Shape coordinate(size_t index) const { Shape k(s.size()); if(first) for(size_t j = s.size(); j-- > 0;) { k[j] = index % s[j]; index /= s[j]; } else for(size_t j = 0; j < s.size(); ++j) { k[j] = index % s[j]; index /= s[j]; } return k; }
   int nth(size_t index) const { return at(coordinate(index)); }
   // a view whose coordinate k is the coordinate f(k) of this one
   template<class F> RV map(const Shape& shape, F f) const { RV r; r.s = shape; r.first = first; Shape k(shape.size(), 0); do { r.cell.push_back(at(f(k))); } while(nextIn(shape, k)); return r; }
   RV sub(const Shape& b, const Shape& n) const { return map(n, [&](Shape k) { for(size_t j = 0; j < k.size(); ++j) k[j] += b[j]; return k; }); }
   RV bound(size_t d, size_t x) const { Shape n(s); n.erase(n.begin() + d); return map(n, [&](Shape k) { k.insert(k.begin() + d, x); return k; }); }
   RV permuted(const Shape& p) const { Shape n; for(size_t j : p) n.push_back(s[j]); return map(n, [&](Shape k) { Shape q(k.size()); for(size_t j = 0; j < k.size(); ++j) q[p[j]] = k[j]; return q; }); }
   RV squeezed() const { Shape n; for(size_t x : s) if(x != 1) n.push_back(x); return map(n, [&](Shape k) { Shape q; size_t i = 0; for(size_t x : s) q.push_back(x == 1 ? 0 : k[i++]); return q; }); }
   RV reshaped(const Shape& n) const { RV r; r.s = n; r.first = first; Shape k(n.size(), 0); do { r.cell.push_back(nth(r.linear(k, first))); } while(nextIn(n, k)); return r; }
   uint64_t hash() const { uint64_t h = first; for(size_t x : s) h = mc::mix(h, x); h = mc::mix(h, 77); for(int x : cell) h = mc::mix(h, x); return h; }
   std::string str() const { std::ostringstream o; o << "shape"; for(size_t x : s) o << " " << x; o << (first ? " first" : " last") << " major, cells"; for(size_t i = 0; i < size(); ++i) o << " " << nth(i); return o.str(); }
};
template<class V> auto element(const V& v, const Shape& k) -> decltype(&v(k.begin())) {
   switch(k.size()) { case 2: return &v(k[0], k[1]); case 3: return &v(k[0], k[1], k[2]); case 4: return &v(k[0], k[1], k[2], k[3]); case 5: return &v(k[0], k[1], k[2], k[3], k[4]); case 10: return &v(k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7], k[8], k[9]); default: return &v(k.begin()); }
}
// the view denotes exactly the cells of the reference view
template<class T, bool C, class A> void same(mc::Ctx& c, const marray::View<T, C, A>& v, const RV& r, const T* mem) {
   typedef marray::View<T, C, A> V; const size_t d = r.s.size(), n = r.size(); c.eq(v.dimension(), d, "dimension"); c.eq(v.size(), n, "size"); c.eq(v.coordinateOrder() == marray::FirstMajorOrder, r.first, "coordinate order"); for(size_t j = 0; j < d; ++j) c.eq(v.shape(j), r.s[j], "shape"); c.check(Shape(v.shapeBegin(), v.shapeEnd()) == r.s, "shape sequence"); c.check(Shape(v.stridesBegin(), v.stridesEnd()).size() == d, "stride sequence");
   for(size_t i = 0; i < n; ++i) {
      Shape k = r.coordinate(i), q(d, 99); const T* a = mem + r.at(k); c.check(&v(i) == a, "element by linear index"); c.check(&v((int)i) == a, "element by linear index");
      if(!d) continue; c.check(&v(k.begin()) == a, "element by coordinates"); c.check(element(v, k) == a, "element by single coordinates"); size_t x = 99; v.coordinatesToIndex(k.begin(), x); c.eq(x, i, "index of coordinates"); v.indexToCoordinates(i, q.begin()); c.check(q == k, "coordinates of an index"); v.coordinatesToOffset(k.begin(), x); c.check(mem + r.cell[0] + x == a, "offset of coordinates"); v.indexToOffset(i, x); c.check(mem + r.cell[0] + x == a, "offset of an index");
   }
   for(size_t j = 0; j < d; ++j) if(r.s[j] > 1) { Shape k(d, 0); k[j] = 1; c.eq((long)v.strides(j), (long)(r.at(k) - r.cell[0]), "stride"); }
   if(v.isSimple()) for(size_t i = 0; i < n; ++i) c.eq(r.nth(i), r.cell[0] + (int)i, "a simple view is consecutive memory");
   V w(v); size_t i = 0; for(auto it = w.begin(); it != w.end(); ++it, ++i) { c.check(i < n && &*it == mem + r.nth(i), "element by iterator"); c.check(it.hasMore() && it.index() == i, "index of an iterator"); Shape q(d, 99); if(d) { it.coordinate(q.begin()); c.check(q == r.coordinate(i), "coordinates of an iterator"); } } c.eq(i, n, "length of an iteration");
   i = 0; for(auto it = v.begin(); it.hasMore(); it++, ++i) c.check(i < n && &*it == mem + r.nth(i), "element by constant iterator"); c.eq(i, n, "length of a constant iteration");
   i = n; for(auto it = w.rbegin(); it != w.rend(); ++it) c.check(i > 0 && &*it == mem + r.nth(--i), "element by reverse iterator"); c.eq(i, (size_t)0, "length of a reverse iteration");
   i = n; for(auto it = v.end(); it != v.begin();) { --it; c.check(i > 0 && &*it == mem + r.nth(--i) && it.index() == i, "element by decremented iterator"); }
}
// guarded memory with distinct values
template<class T> struct Mem {
   std::vector<T> m, ref;
   explicit Mem(size_t n, int seed = 0) : m(n) { for(size_t i = 0; i < n; ++i) m[i] = (T)((int)(i * 7 + seed * 5) % 101 + 1); ref = m; }
   T* p() { return m.data(); }
   void same(mc::Ctx& c, const char* what) { for(size_t i = 0; i < m.size(); ++i) if(!(m[i] == ref[i])) { std::ostringstream o; o << what << ": cell " << i << " holds " << (double)m[i] << ", expected " << (double)ref[i]; c.fail(o.str()); } c.check(true, what); }
};
inline Shape anyPermutation(mc::Ctx& c, size_t d) { Shape p(d); for(size_t i = 0; i < d; ++i) p[i] = i; for(size_t i = 0; i + 1 < d; ++i) std::swap(p[i], p[i + c.choose((int)(d - i))]); return p; }
// a view of the given shape somewhere in the memory
static constexpr int LAYOUTS = 8;
template<class T> marray::View<T, false> layout(int kind, const Shape& s, T* mem, int base, bool internal, RV& r) {
   typedef marray::View<T, false> V; const size_t d = s.size(); Shape rev(d), p(d); for(size_t j = 0; j < d; ++j) { rev[j] = s[d - 1 - j]; p[j] = d - 1 - j; }
   switch(d ? kind : 0) {
   case 0: r = RV(s, base, internal, internal); return V(s.begin(), s.end(), mem + base, order(internal), order(internal));
   case 1: r = RV(s, base, !internal, internal); return V(s.begin(), s.end(), mem + base, order(!internal), order(internal));
   case 2: { RV q(rev, base, internal, internal); r = q.permuted(p); return V(rev.begin(), rev.end(), mem + base, order(internal), order(internal)).permutedView(p.begin()); }
   case 3: { Shape st(d); size_t x = 2; for(size_t j = 0; j < d; ++j) { st[j] = x; x *= s[j]; } r = RV(s, st, base, internal); return V(s.begin(), s.end(), st.begin(), mem + base, order(internal)); }
   case 4: case 5: { Shape big(s), b(d, 0); big[kind == 4 ? 0 : d - 1] += 1; b[kind == 4 ? 0 : d - 1] = 1; RV q(big, base, kind == 4, internal); r = q.sub(b, s); return V(big.begin(), big.end(), mem + base, order(kind == 4), order(internal)).view(b.begin(), s.begin()); }
   case 6: { Shape big(s); big.insert(big.begin(), 2); RV q(big, base, false, internal); r = q.bound(0, 1); return V(big.begin(), big.end(), mem + base, order(false), order(internal)).boundView(0, 1); }
   default: { Shape big(s); big.insert(big.begin() + d / 2, 1); RV q(big, base, true, internal); r = q.bound(d / 2, 0); if(std::count(s.begin(), s.end(), 1) == 0) { r = q.squeezed(); return V(big.begin(), big.end(), mem + base, order(true), order(internal)).squeezedView(); } return V(big.begin(), big.end(), mem + base, order(true), order(internal)).boundView(d / 2, 0); }
   }
}
#endif
