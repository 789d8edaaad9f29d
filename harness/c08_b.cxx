// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -fsanitize=address -fno-sanitize-recover=all
// C08 (2): arithmetic between arrays and views of every layout, overlapping or not; histories of arrays, vectors and matrices.
#include "c08_marray.hxx"
template<class T> struct Name; typedef marray::View<int, false> V; typedef marray::View<int, true> CV;
static Shape shapeOf(mc::Ctx& c) {
   static const std::vector<Shape> q = {{}, {1}, {3}, {2, 2}, {2, 3}, {3, 1}, {2, 1, 3}, {2, 2, 2}, {1, 2, 1, 2}}; static const std::vector<Shape> more = {{1, 1}, {3, 3}, {3, 2, 2}, {2, 3, 1}, {2, 2, 1, 2}, {2, 1, 2, 1, 2}};
   int k = c.choose((int)(q.size() + (c.thorough ? more.size() : 0))); return k < (int)q.size() ? q[k] : more[k - q.size()];
}
// v (op) w for every pair of layouts
template<class T, class U> static void pairs(mc::Ctx& c, const Shape& s, bool overlap, bool constant) {
   const size_t cells = 4 * volume(s) + 40; Mem<T> m(cells); Mem<U> o(cells, 3); RV r, q; bool i1 = c.flip(), i2 = c.flip(); int k1 = s.empty() ? 0 : c.choose(LAYOUTS), k2 = s.empty() ? 0 : c.choose(LAYOUTS); int shift = overlap ? c.choose(3) : 0;
   marray::View<T, false> v = layout<T>(k1, s, m.p(), 4, i1, r); U* mem2 = overlap ? (U*)(void*)m.p() : o.p(); marray::View<U, false> w = layout<U>(k2, s, mem2, 4 + shift, i2, q); c.state(mc::mix(r.hash(), q.hash() * 2 + overlap)); MC_TRACE(c, r.str() + " <- " + q.str()); c.step();
   int op = c.choose(5); std::vector<U> from; for(int x : q.cell) from.push_back(mem2[x]); for(size_t i = 0; i < r.cell.size(); ++i) { T& x = m.ref[r.cell[i]]; const U& y = from[i]; switch(op) { case 0: x = (T)y; break; case 1: x += y; break; case 2: x -= y; break; case 3: x *= y; break; default: x /= y; } }
   marray::View<U, true> k(w); if(constant) switch(op) { case 0: v = k; break; case 1: v += k; break; case 2: v -= k; break; case 3: v *= k; break; default: v /= k; } else switch(op) { case 0: v = w; break; case 1: v += w; break; case 2: v -= w; break; case 3: v *= w; break; default: v /= w; }
   m.same(c, "element-wise operation between views"); if(!overlap) o.same(c, "the source of an operation is unchanged"); same(c, v, r, m.p()); c.outcome(mc::mix(r.hash(), op));
}
MC_SCENARIO("pairs/int") { pairs<int, int>(c, shapeOf(c), c.flip(), c.flip()); }
MC_SCENARIO("pairs/int-from-double") { pairs<int, double>(c, shapeOf(c), false, c.flip()); }
MC_SCENARIO("pairs/double-from-short") { pairs<double, short>(c, shapeOf(c), false, c.flip()); }
MC_SCENARIO("pairs/float") { pairs<float, float>(c, shapeOf(c), c.flip(), c.flip()); }
static Shape manyDimensions(mc::Ctx& c) { size_t d = (size_t)c.range(c.tier(6, 5), c.tier(11, 12)); if(!c.thorough && d > 6 && d < 11) c.prune(); Shape s(d, 1); s[c.choose((int)d)] = 2; s[(c.choose(3) * 4 + 1) % d] = 3; return s; }
MC_SCENARIO("pairs/many-dimensions") { Shape s = manyDimensions(c); pairs<int, int>(c, s, false, c.flip()); }
// scalars as operands
// overlap: two views share memory exactly if the ranges of their cells meet
MC_SCENARIO("overlaps") { Shape s = shapeOf(c), t = shapeOf(c); Mem<int> m(200); RV r, q; V v = layout<int>(s.empty() ? 0 : c.choose(LAYOUTS), s, m.p(), 4, false, r), w = layout<int>(t.empty() ? 0 : c.choose(LAYOUTS), t, m.p(), 4 + c.range(0, 12), true, q); c.state(mc::mix(r.hash(), q.hash())); c.step(); MC_TRACE(c, r.str() + " and " + q.str()); bool common = false; for(int x : r.cell) for(int y : q.cell) common = common || x == y; const int a = *std::min_element(r.cell.begin(), r.cell.end()), b = *std::max_element(r.cell.begin(), r.cell.end()), d = *std::min_element(q.cell.begin(), q.cell.end()), e = *std::max_element(q.cell.begin(), q.cell.end()); CV k(w); c.check(!common || (v.overlaps(w) && w.overlaps(v) && v.overlaps(k) && k.overlaps(v)), "views with a common element overlap"); c.eq(v.overlaps(w), a <= e && d <= b, "overlap of views"); c.outcome(common + 2 * v.overlaps(w)); }
static void scalars(mc::Ctx& c) { Shape s = shapeOf(c); Mem<int> m(4 * volume(s) + 40), o(3, 2); RV r; V v = layout<int>(s.empty() ? 0 : c.choose(LAYOUTS), s, m.p(), 4, c.flip(), r); c.state(r.hash()); c.step(); bool inside = c.flip(); int at = inside ? r.cell[c.choose((int)r.cell.size())] : 1; int x = inside ? m.m[at] : o.m[1]; V w(inside ? m.p() + at : o.p() + 1); int op = c.choose(4); for(int q : r.cell) { int& y = m.ref[q]; switch(op) { case 0: y += x; break; case 1: y -= x; break; case 2: y *= x; break; default: y /= x; } } if(c.flip()) { CV k(w); switch(op) { case 0: v += k; break; case 1: v -= k; break; case 2: v *= k; break; default: v /= k; } } else switch(op) { case 0: v += w; break; case 1: v -= w; break; case 2: v *= w; break; default: v /= w; } m.same(c, "operation with a scalar view"); c.outcome(mc::mix(r.hash(), op)); }
MC_SCENARIO("pairs/scalars") { scalars(c); }

// expressions of views
template<class E> static void elements(mc::Ctx& c, const E& e, const Shape& s, const std::vector<double>& want) { c.eq(e.dimension(), s.size(), "dimension of an expression"); c.eq(e.size(), want.size(), "size of an expression"); Shape k(s.size(), 0); size_t i = 0; if(s.empty()) c.near((double)e(0), want[0], 1e-12, "value of a scalar expression"); else do { c.near((double)e(k.begin()), want[i], 1e-12, "element of an expression"); if(s.size() == 2) c.near((double)e(k[0], k[1]), want[i], 1e-12, "element of an expression"); if(s.size() == 3) c.near((double)e(k[0], k[1], k[2]), want[i], 1e-12, "element of an expression"); ++i; } while(nextIn(s, k)); for(size_t j = 0; j < s.size(); ++j) c.eq(e.shape(j), s[j], "shape of an expression"); }
template<class T, class E> static void into(mc::Ctx& c, const E& e, const Shape& s, const std::vector<double>& want, int target, Mem<T>& m, marray::View<T, false>& v, const RV& r) {
   elements(c, e, s, want);
   switch(target) {
   case 0: { v = e; for(size_t i = 0; i < want.size(); ++i) m.ref[r.cell[i]] = (T)want[i]; m.same(c, "assigning an expression to a view"); break; }
   default: { marray::Marray<T> a(v); if(target == 1) a = e; else if(target == 2) { marray::Marray<T> b(e); a = b; } else { marray::Marray<T> b; b = e; a = b; } RV q(s, 0, e.coordinateOrder() == marray::FirstMajorOrder, e.coordinateOrder() == marray::FirstMajorOrder); same(c, a, q, &a(0)); for(size_t i = 0; i < want.size(); ++i) c.eq((double)(&a(0))[q.cell[i]], (double)(T)want[i], "array from an expression"); m.same(c, "evaluating an expression changes nothing"); }
   }
}
template<class T, class U> static void expressions(mc::Ctx& c, const Shape& s, int layouts, bool overlap) {
   const size_t cells = 4 * volume(s) + 40; Mem<T> m(cells); Mem<U> o(cells, 3); RV r, p, q; int k1 = s.empty() ? 0 : c.choose(layouts), k2 = s.empty() ? 0 : c.choose(layouts); bool i1 = c.flip(), i2 = c.flip(), i3 = c.flip(); int target = c.choose(4);
   marray::View<T, false> v = layout<T>(s.empty() ? 0 : k1, s, m.p(), 4, i1, r), a = layout<T>(k2, s, overlap ? m.p() : m.p(), 4 + (int)overlap, i2, p); marray::View<U, false> b = layout<U>(s.empty() ? 0 : (k1 + k2) % layouts, s, o.p(), 5, i3, q); c.state(mc::mix(mc::mix(r.hash(), p.hash()), q.hash())); c.step(); MC_TRACE(c, r.str() + " <- " + p.str() + ", " + q.str());
   std::vector<double> x, y, w; for(int i : p.cell) x.push_back((double)m.m[i]); for(int i : q.cell) y.push_back((double)o.m[i]); const size_t n = x.size(); w.resize(n); marray::View<U, true> cb(b); const bool integral = std::numeric_limits<U>::is_integer, both = integral && std::numeric_limits<T>::is_integer;
#define EXPRESSION(e, f) { for(size_t i = 0; i < n; ++i) { const double X = x[i], Y = y[i]; (void)X; (void)Y; w[i] = f; } into<T>(c, e, s, w, target, m, v, r); break; }
   switch(c.choose(12)) {
   case 0: EXPRESSION(a + b, X + Y)
   case 1: EXPRESSION(a - cb, X - Y)
   case 2: EXPRESSION(b * a, X * Y)
   case 3: EXPRESSION(-a, -X)
   case 4: EXPRESSION(a + 3, X + 3)
   case 5: EXPRESSION(7 - cb, 7 - Y)
   case 6: EXPRESSION(a / b, both ? (double)((long)X / (long)Y) : X / Y)
   case 7: EXPRESSION(300 / b, integral ? (double)(300 / (long)Y) : 300 / Y)
   case 8: EXPRESSION(a * 2 + b, X * 2 + Y)
   case 9: EXPRESSION(a + b - a, Y)
   case 10: EXPRESSION((a + b) * (a - b), (X + Y) * (X - Y))
   default: EXPRESSION(+a, X)
   }
   o.same(c, "evaluating an expression leaves its operands"); c.outcome(mc::mix(r.hash(), target));
}
MC_SCENARIO("expressions/int") { expressions<int, int>(c, shapeOf(c), c.tier(4, LAYOUTS), c.flip()); }
MC_SCENARIO("expressions/double-int") { expressions<double, int>(c, shapeOf(c), c.tier(3, LAYOUTS), false); }
MC_SCENARIO("expressions/many-dimensions") { expressions<int, int>(c, manyDimensions(c), c.tier(2, 4), false); }
