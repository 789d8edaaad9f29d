// FLAGS: -O2 -D_GLIBCXX_ASSERTIONS -fsanitize=address -fno-sanitize-recover=all
// C08 (1): every short chain of view transformations of every small array; iterator laws.
#include "c08_marray.hxx"
typedef marray::View<int, false> V; typedef marray::View<int, true> CV;
static Shape anyShape(mc::Ctx& c, int maxDim, size_t maxVolume) { Shape s(c.choose(maxDim + 1)); for(size_t& x : s) x = 1 + c.choose(3); if(volume(s) > maxVolume) c.prune(); return s; }
template<class W> static void equalViews(mc::Ctx& c, const W& a, const W& b) { c.check(a.dimension() == b.dimension() && a.size() == b.size() && Shape(a.shapeBegin(), a.shapeEnd()) == Shape(b.shapeBegin(), b.shapeEnd()) && Shape(a.stridesBegin(), a.stridesEnd()) == Shape(b.stridesBegin(), b.stridesEnd()) && a.coordinateOrder() == b.coordinateOrder() && &a(0) == &b(0) && a.isSimple() == b.isSimple(), "transforming in place and taking a transformed view agree"); }
// one transformation applied to the view and the reference
template<bool C> static void transform(mc::Ctx& c, marray::View<int, C>& v, RV& r) {
   typedef marray::View<int, C> W; const size_t d = r.s.size(); W w(v);
   switch(c.choose(d ? 8 : 3)) {
   case 0: { w.squeeze(); equalViews(c, w, v.squeezedView()); r = r.squeezed(); break; }
   case 1: { if(!v.isSimple()) c.prune(); std::vector<Shape> f; const size_t n = r.size(); f.push_back(Shape(1, n)); for(size_t a = 1; a <= n; ++a) if(n % a == 0) { f.push_back(Shape{a, n / a}); if(c.thorough) for(size_t b = 1; b <= n / a; ++b) if(n / a % b == 0) f.push_back(Shape{a, b, n / a / b}); } Shape s = f[c.choose((int)f.size())]; w.reshape(s.begin(), s.end()); equalViews(c, w, v.reshapedView(s.begin(), s.end())); r = r.reshaped(s); break; }
   case 2: { w.transpose(); equalViews(c, w, v.transposedView()); Shape p(d); for(size_t j = 0; j < d; ++j) p[j] = d - 1 - j; if(d) r = r.permuted(p); break; }
   case 3: { Shape b(d), n(d); for(size_t j = 0; j < d; ++j) { b[j] = c.choose((int)r.s[j]); n[j] = 1 + c.choose((int)(r.s[j] - b[j])); } if(c.flip()) { bool first = c.flip(); w = W(); v.view(b.begin(), n.begin(), order(first), w); equalViews(c, w, v.view(b.begin(), n.begin(), order(first))); r = r.sub(b, n); r.first = first; } else { W u; v.view(b.begin(), n.begin(), u); equalViews(c, u, v.view(b.begin(), n.begin())); marray::View<int, true> k = v.constView(b.begin(), n.begin()); r = r.sub(b, n); c.check(&k(0) == &u(0) && k.size() == u.size() && k.dimension() == u.dimension(), "constant sub-view"); v.assign(); v = u; return; } break; }
   case 4: { size_t j = c.choose((int)d), x = c.choose((int)r.s[j]); W u = v.boundView(j, x); v.assign(); v = u; r = r.bound(j, x); return; }
   case 5: { Shape p = anyPermutation(c, d); w.permute(p.begin()); equalViews(c, w, v.permutedView(p.begin())); r = r.permuted(p); break; }
   case 6: { size_t a = c.choose((int)d), b = c.choose((int)d); w.transpose(a, b); equalViews(c, w, v.transposedView(a, b)); Shape p(d); for(size_t j = 0; j < d; ++j) p[j] = j; std::swap(p[a], p[b]); r = r.permuted(p); break; }
   default: { int n = c.range(-(int)d - 1, (int)d + 1); w.shift(n); equalViews(c, w, v.shiftedView(n)); Shape p(d); for(size_t j = 0; j < d; ++j) p[j] = (size_t)(((int)j - n) % (int)d + (int)d) % d; r = r.permuted(p); }
   }
   v.assign(); v = w;
}
template<bool C> static void conversions(mc::Ctx& c, const marray::View<int, C>& v, const RV& r, const int* mem) { CV k(v), l; l = v; same(c, k, r, mem); same(c, l, r, mem); }
static void writes(mc::Ctx& c, V& v, const RV& r, Mem<int>& m, bool every = true) {
   int op = every ? c.choose(8) : 1; for(int q : r.cell) { int& x = m.ref[q]; switch(op) { case 0: x = 42; break; case 1: ++x; break; case 2: --x; break; case 3: x += 3; break; case 4: x -= 3; break; case 5: x *= 3; break; case 6: x /= 2; break; default: x = 7; } }
   switch(op) { case 0: v = 42; break; case 1: ++v; break; case 2: --v; break; case 3: v += 3; break; case 4: v -= (short)3; break; case 5: v *= 3L; break; case 6: v /= 2.0; break; default: for(auto it = v.begin(); it != v.end(); ++it) *it = 7; } m.same(c, "writing through a view");
}
static void chains(mc::Ctx& c, int maxDim, size_t maxVolume, int depth) {
   Shape s = anyShape(c, maxDim, maxVolume); int kind = c.choose(s.empty() ? 2 : 5); Mem<int> m(2 * volume(s) + 6); RV r; V v; bool internal = c.flip();
   if(s.empty()) { r = RV(s, 2, internal, kind == 0 ? internal : false); if(kind == 0) v = V(s.begin(), s.end(), m.p() + 2, order(internal), order(internal)); else { r.first = false; v = V(m.p() + 2); } }
   else if(kind < 2) { r = RV(s, 2, kind, internal); if(c.flip()) v = V(s.begin(), s.end(), m.p() + 2, order(kind), order(internal)); else v.assign(s.begin(), s.end(), m.p() + 2, order(kind), order(internal)); }
   else { Shape st(s.size()); size_t x = kind == 2 ? 2 : 1; for(size_t i = 0; i < s.size(); ++i) { size_t j = kind == 4 ? s.size() - 1 - i : i; st[j] = x; x *= s[j]; } r = RV(s, st, 2, internal); if(kind == 3) v.assign(s.begin(), s.end(), st.begin(), m.p() + 2, order(internal)); else v = V(s.begin(), s.end(), st.begin(), m.p() + 2, order(internal)); }
   c.state(r.hash()); if(depth == 1) { same(c, v, r, m.p()); conversions(c, v, r, m.p()); } bool constant = (depth == 1 || c.thorough) && c.flip();
   if(constant) { CV k(v); for(int i = 0; i < depth; ++i) { transform(c, k, r); c.step(); if(i + 1 == depth) same(c, k, r, m.p()); } conversions(c, k, r, m.p()); }
   else { for(int i = 0; i < depth; ++i) { transform(c, v, r); c.step(); if(i + 1 == depth) same(c, v, r, m.p()); } MC_TRACE(c, r.str()); m.same(c, "looking at a view changes nothing"); writes(c, v, r, m, depth == 1); }
   c.state(r.hash()); c.outcome(r.hash());
}
MC_SCENARIO("chains/single") { chains(c, 3, c.tier(4, 12), 1); }
MC_SCENARIO("chains/four-dimensions") { chains(c, 4, c.tier(2, 12), 1); }
MC_SCENARIO("chains/two") { chains(c, c.tier(2, 3), c.tier(4, 8), 2); }
MC_SCENARIO("chains/three") { chains(c, 2, c.tier(2, 3), c.tier(2, 3)); }
// views with many dimensions
static void large(mc::Ctx& c) { size_t d = c.pick(c.thorough ? std::vector<int>{5, 6, 7, 8, 9, 10, 11, 12} : std::vector<int>{5, 10, 11}); Shape s(d, 1); s[c.choose((int)d)] = 2; s[c.choose((int)d)] = 3; s[0] = 2; Mem<int> m(2 * volume(s) + 8); RV r; bool internal = c.flip(); V v = layout<int>(c.choose(LAYOUTS), s, m.p(), 3, internal, r); c.state(r.hash()); MC_TRACE(c, r.str()); same(c, v, r, m.p()); if(c.flip()) { Shape p(d); for(size_t j = 0; j < d; ++j) p[j] = (j * 5 + 3) % d; if(d % 5 == 0) std::reverse(p.begin(), p.end()), p.assign(p.rbegin(), p.rend()); std::vector<size_t> seen(p); std::sort(seen.begin(), seen.end()); bool ok = true; for(size_t j = 0; j < d; ++j) ok = ok && seen[j] == j; if(!ok) for(size_t j = 0; j < d; ++j) p[j] = d - 1 - j; v.permute(p.begin()); r = r.permuted(p); same(c, v, r, m.p()); } c.step(); writes(c, v, r, m); c.outcome(r.hash()); }
MC_SCENARIO("chains/many-dimensions") { large(c); }

// iterators: every pair of positions of every small view
template<class It, class CIt> static void laws(mc::Ctx& c, It b, It e, CIt cb, const RV& r, int* mem, int i, int j) {
   const int n = (int)r.size(); It x = b + i, y = e - (n - j); auto at = [&](int k) { return mem + r.nth(k); };
   c.eq((int)x.index(), i, "position of an advanced iterator"); c.eq((int)y.index(), j, "position of a retreated iterator"); if(i < n) c.check(&*x == at(i), "element of an advanced iterator"); if(j < n) { c.check(&*y == at(j), "element of a retreated iterator"); c.check(y.operator->() == at(j), "member access of an iterator"); }
   c.eq((int)(y - x), j - i, "distance of iterators"); c.check((x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "comparison of iterators");
   CIt k = cb + j; CIt l(x); c.check((x == k) == (i == j) && (x != k) == (i != j) && (k - x) == j - i && (x < k) == (i < j) && (k < x) == (j < i) && (x <= k) == (i <= j) && (x > k) == (i > j) && (k >= x) == (j >= i), "comparison with a constant iterator"); c.eq((int)l.index(), i, "position of a converted iterator"); if(i < n) c.check(&*l == at(i), "element of a converted iterator");
   It z(x); z += j - i; c.eq((int)z.index(), j, "position after a jump"); if(j < n) c.check(&*z == at(j), "element after a jump"); z -= j - i; c.eq((int)z.index(), i, "position after a jump back"); if(i < n) c.check(&*z == at(i), "element after a jump back"); if(i < n && j < n && j >= i) c.check(&x[j - i] == at(j), "subscript of an iterator"); z = x; c.check(z == x, "assigned iterator");
   if(j < n) { It q(y); c.check(&*q++ == at(j), "post increment"); c.eq((int)q.index(), j + 1, "post increment"); if(j + 1 < n) c.check(&*q == at(j + 1), "post increment"); It p(y); ++p; c.eq((int)p.index(), j + 1, "increment"); c.check(p.hasMore() == (j + 1 < n), "end of the iteration"); --p; c.check(&*p == at(j), "decrement after increment"); c.check(p == y, "decrement after increment"); }
   if(j > 0) { It q(y); if(j < n) c.check(&*q-- == at(j), "post decrement"); else q--; c.eq((int)q.index(), j - 1, "post decrement"); c.check(&*q == at(j - 1), "post decrement"); ++q; c.check(q == y, "increment after decrement"); if(j < n) c.check(&*q == at(j), "increment after decrement"); }
}
static void iterators(mc::Ctx& c) {
   Shape s = anyShape(c, 3, c.tier(6, 12)); Mem<int> m(3 * volume(s) + 6); RV r; bool internal = c.flip(); V v = layout<int>(s.empty() ? 0 : c.choose(LAYOUTS), s, m.p(), 2, internal, r); CV k(v); c.state(r.hash()); MC_TRACE(c, r.str()); c.step();
   const V& cv = v; int n = (int)r.size(), i = c.choose(n + 1), j = c.choose(n + 1); c.outcome(r.hash()); laws(c, v.begin(), v.end(), cv.begin(), r, m.p(), i, j); laws(c, cv.begin(), cv.end(), cv.begin(), r, m.p(), i, j); laws(c, k.begin(), k.end(), ((const CV&)k).begin(), r, m.p(), i, j);
   std::vector<int> got(v.begin(), v.end()), rev(v.rbegin(), v.rend()); for(int q = 0; q < n; ++q) { c.eq(got[q], m.m[r.nth(q)], "copied elements"); c.eq(rev[n - 1 - q], got[q], "reversed elements"); } if(i < n) { *(v.begin() + i) = 500; m.ref[r.nth(i)] = 500; m.same(c, "writing through an iterator"); *(v.rbegin() + (n - 1 - i)) = 600; m.ref[r.nth(i)] = 600; m.same(c, "writing through a reverse iterator"); } std::sort(v.begin(), v.end()); std::vector<int> sorted; for(int q = 0; q < n; ++q) sorted.push_back(m.ref[r.nth(q)]); std::sort(sorted.begin(), sorted.end()); for(int q = 0; q < n; ++q) m.ref[r.nth(q)] = sorted[q]; m.same(c, "sorting a view");
}
MC_SCENARIO("iterators") { iterators(c); }
