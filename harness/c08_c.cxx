// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -UNDEBUG -fsanitize=address -fno-sanitize-recover=all
// C08 (3): histories of arrays, vectors and matrices, with the assertions of the library enabled.
#include "c08_marray.hxx"
typedef marray::Marray<int> M; typedef marray::View<int, false> V; typedef marray::View<int, true> CV;
// reference array: values with the first coordinate fastest
struct RA {
   bool init, first; Shape s; std::vector<int> x; RA() : init(false), first(false) {}
   RA(const Shape& shape, int value, bool f) : init(true), first(f), s(shape), x(volume(shape), value) {}
   size_t at(const Shape& k) const { size_t q = 0; for(size_t j = s.size(); j-- > 0;) q = q * s[j] + k[j]; return q; }
   Shape nth(size_t i) const { Shape k(s.size()); if(first) for(size_t j = s.size(); j-- > 0;) { k[j] = i % s[j]; i /= s[j]; } else for(size_t j = 0; j < s.size(); ++j) { k[j] = i % s[j]; i /= s[j]; } return k; }
   RA reshaped(const Shape& t) const { RA r(t, 0, first); for(size_t i = 0; i < x.size(); ++i) r.x[r.at(r.nth(i))] = x[at(nth(i))]; return r; }
   RA resized(const Shape& t, int value) const { RA r(t, value, first); if(!init) return r; Shape k(s.size(), 0); do { bool in = true; Shape q(t.size(), 0); for(size_t j = 0; j < k.size(); ++j) if(j < t.size()) { q[j] = k[j]; in = in && k[j] < t[j]; } else in = in && !k[j]; if(in) r.x[r.at(q)] = x[at(k)]; } while(nextIn(s, k)); return r; }
   uint64_t hash() const { uint64_t h = init + 2 * first; for(size_t j : s) h = mc::mix(h, j); h = mc::mix(h, 9); for(int v : x) h = mc::mix(h, v); return h; }
   std::string str() const { std::ostringstream o; if(!init) return "empty"; o << "("; for(size_t j : s) o << j << ","; o << ")" << (first ? "F" : "L") << ":"; for(int v : x) o << " " << v; return o.str(); }
};
template<class A> static void same(mc::Ctx& c, const A& a, const RA& r, bool skip = false) {
   if(!r.init) { c.eq(a.size(), (size_t)0, "size of an empty array"); return; }
   c.eq(a.dimension(), r.s.size(), "dimension"); c.eq(a.size(), r.x.size(), "size"); for(size_t j = 0; j < r.s.size(); ++j) c.eq(a.shape(j), r.s[j], "shape"); c.check(a.isSimple(), "an array is simple");
   if(r.s.empty()) { c.eq((int)a(0), r.x[0], "scalar"); return; }
   if(!skip) c.eq(a.coordinateOrder() == marray::FirstMajorOrder, r.first, "coordinate order");
   Shape k(r.s.size(), 0); size_t i = 0; do c.eq((int)a(k.begin()), r.x[i++], "element"); while(nextIn(r.s, k));
   i = 0; for(auto it = a.begin(); it != a.end(); ++it, ++i) c.eq((int)*it, r.x[r.at(r.nth(i))], "element by iterator"); c.eq(i, r.x.size(), "length of an iteration");
}
static void fill(RA& r, M& a, int seed) { Shape k(r.s.size(), 0); size_t i = 0; do { r.x[i] = seed + (int)i * 3; if(r.s.empty()) a(0) = r.x[i]; else a(k.begin()) = r.x[i]; ++i; } while(nextIn(r.s, k)); }
static const std::vector<Shape>& shapes(mc::Ctx& c) { static const std::vector<Shape> q = {{}, {1}, {3}, {2, 2}, {1, 2, 2}}, more = {{}, {1}, {3}, {4}, {2, 2}, {3, 1}, {2, 3}, {1, 2, 2}, {2, 1, 2, 1}}; return c.thorough ? more : q; }
static Shape pickShape(mc::Ctx& c) { const auto& q = shapes(c); return q[c.choose((int)q.size())]; }
// one operation on array a (and b); mirrored on the reference arrays
static bool step(mc::Ctx& c, M& a, RA& r, const M& b, const RA& q, int seed) {
   const bool equal = r.init && q.init && r.s == q.s;
   switch(c.choose(16)) {
   case 0: a = b; r = q; break;
   case 1: { Shape s = pickShape(c); bool f = c.flip(); M n = s.empty() ? M(5, order(f)) : M(s.begin(), s.end(), 5, order(f)); c.step(); RA w(s, 5, f); same(c, n, w, s.empty()); fill(w, n, seed); a = n; r = w; break; }
   case 2: { Shape s = pickShape(c); if(s.empty()) a.resize(s.begin(), s.end(), seed); else a.resize(s.begin(), s.end(), seed); if(s.empty()) { RA w(s, r.init ? r.x[0] : seed, false); r = w; r.first = a.coordinateOrder() == marray::FirstMajorOrder; } else { r = r.resized(s, seed); if(q.init == false && false) return false; } break; }
   case 3: { Shape s = pickShape(c); a.resize(marray::SkipInitialization, s.begin(), s.end()); RA w = r.resized(s, -1); if(s.empty()) w.first = a.coordinateOrder() == marray::FirstMajorOrder; Shape k(s.size(), 0); if(s.empty()) { if(w.x[0] == -1) a(0) = -1; } else do if(w.x[w.at(k)] == -1) a(k.begin()) = -1; while(nextIn(s, k)); r = w; break; }
   case 4: { Shape s = pickShape(c); if(!r.init || s.empty() || r.s.empty() || volume(s) != r.x.size()) return false; a.reshape(s.begin(), s.end()); r = r.reshaped(s); break; }
   case 5: a.assign(); r = RA(); break;
   case 6: if(!r.init) return false; a = 40 + seed; r.x.assign(r.x.size(), 40 + seed); break;
   case 7: { if(!r.init) return false; int k = c.choose(4); RA old = r; for(int& x : r.x) x += k < 2 ? 1 : -1; if(k == 0) ++a; else if(k == 1) { M o = a++; same(c, o, old, true); } else if(k == 2) --a; else { M o = a--; same(c, o, old, true); } break; }
   case 8: { if(!equal) return false; int k = c.choose(4); for(size_t i = 0; i < r.x.size(); ++i) { int& x = r.x[i]; int y = q.x[i]; if(k == 0) x += y; else if(k == 1) x -= y; else if(k == 2) x *= y; else { if(!y) return false; x /= y; } } if(k == 0) a += b; else if(k == 1) a -= b; else if(k == 2) a *= b; else a /= b; break; }
   case 9: { if(!q.init) return false; a = b * 2 + 1; r = q; for(int& x : r.x) x = x * 2 + 1; break; }
   case 10: { if(!equal) return false; RA w = r; for(size_t i = 0; i < w.x.size(); ++i) w.x[i] = r.x[i] - q.x[i]; a = a - b; r = w; r.first = a.coordinateOrder() == marray::FirstMajorOrder; break; }
   case 11: { if(!r.init || r.s.empty()) return false; RA w = r; Shape p(r.s.size()), t(r.s.size()); for(size_t j = 0; j < p.size(); ++j) { p[j] = p.size() - 1 - j; t[j] = r.s[p[j]]; } RA z(t, 0, r.first); Shape k(t.size(), 0); do { Shape y(k.rbegin(), k.rend()); z.x[z.at(k)] = r.x[r.at(y)]; } while(nextIn(t, k)); V v = a.permutedView(p.begin()); if(c.flip()) a = v; else { M n(v); a = n; } r = z; break; }
   case 12: { if(!r.init || r.s.empty()) return false; size_t d = c.choose((int)r.s.size()), at = r.s[d] - 1; Shape t(r.s); t.erase(t.begin() + d); RA z(t, 0, r.first); Shape k(t.size(), 0); do { Shape y(k); y.insert(y.begin() + d, at); z.x[z.at(k)] = r.x[r.at(y)]; } while(nextIn(t, k)); a = a.boundView(d, at); if(t.empty()) z.first = a.coordinateOrder() == marray::FirstMajorOrder; r = z; break; }
   case 13: { if(!q.init) return false; marray::Marray<double> n(b); same(c, n, q, q.s.empty()); for(size_t i = 0; i < n.size(); ++i) n(i) += .25; a = n; r = q; break; }
   case 14: { M n(a); same(c, n, r, r.s.empty()); a = a; M& x = a; a = x; CV v; if(r.init) v = a; else break; a = v; break; }
   default: { if(!q.init) return false; CV v(b); if(equal) { static_cast<V&>(a) = v; const bool f = r.first; r = q; r.first = f; } else { a = v; r = q; } break; }
   }
   return true;
}
MC_SCENARIO("histories/array") {
   Shape s = pickShape(c); bool f = c.flip(); M a, b; RA r, q; if(c.flip()) { a = s.empty() ? M(5, order(f)) : M(s.begin(), s.end(), 5, order(f)); r = RA(s, 5, f); fill(r, a, 10); } else if(f || !s.empty()) c.prune();
   { Shape t = s.size() == 2 || c.flip() ? Shape{2, 2} : Shape{3}; b = M(t.begin(), t.end(), 5, order(t.size() == 2)); q = RA(t, 5, t.size() == 2); fill(q, b, 60); }
   same(c, a, r, r.s.empty()); const int n = c.tier(2, 3); for(int i = 0; i < n; ++i) { bool done = step(c, a, r, b, q, 100 * (i + 1)); if(!done) c.prune(); c.step(); MC_TRACE(c, r.str()); c.state(mc::mix(r.hash(), i)); same(c, a, r, r.s.empty()); same(c, b, q, true); }
   c.outcome(r.hash());
}
// vectors
MC_SCENARIO("histories/vector") {
   typedef marray::Vector<int> X; size_t n = (size_t)c.range(0, 3); X a(n, 4); RA r; if(n) r = RA(Shape(1, n), 4, false); for(size_t i = 0; i < n; ++i) { a[i] = (int)i + 10; r.x[i] = (int)i + 10; }
   X b(2, 7); b[1] = 8; const int steps = c.tier(3, 4);
   for(int i = 0; i < steps; ++i) {
      switch(c.choose(13)) {
      case 0: a = b; r = RA(Shape(1, 2), 7, false); r.x[1] = 8; break;
      case 1: { size_t m = (size_t)c.range(0, 4); a.resize(m, 50 + i); r = m ? r.resized(Shape(1, m), 50 + i) : RA(); break; }
      case 2: { size_t m = (size_t)c.range(0, 4); a.resize(marray::SkipInitialization, m); RA w = m ? r.resized(Shape(1, m), -1) : RA(); for(size_t j = 0; j < w.x.size(); ++j) if(w.x[j] == -1) a[j] = -1; r = w; break; }
      case 3: { int x = 33; V v(&x); a = v; r = RA(Shape(1, 1), 33, false); break; }
      case 4: { M m(9); X w(m); a = w; r = RA(Shape(1, 1), 9, false); break; }
      case 5: { Shape s{2, 3}; M m(s.begin(), s.end(), 1); m(1, 0) = 3; m(1, 1) = 4; m(1, 2) = 5; if(c.flip()) a = m.boundView(0, 1); else { X w(m.boundView(0, 1)); a = w; } r = RA(Shape(1, 3), 3, false); r.x[1] = 4; r.x[2] = 5; break; }
      case 6: if(!r.init) c.prune(); a = 6; r.x.assign(r.x.size(), 6); break;
      case 7: if(r.x.size() != 2) c.prune(); if(c.flip()) a = a + b * 2; else { X w(a + b * 2); a = w; } r.x[0] += 14; r.x[1] += 16; break;
      case 8: if(!r.init) c.prune(); { X o = X(a++); c.eq(o[0], r.x[0], "postfix increment"); for(int& x : r.x) ++x; } break;
      case 9: a.assign(); r = RA(); break;
      case 10: { marray::Vector<short> w(3, (short)2); w[2] = 5; a = w; r = RA(Shape(1, 3), 2, false); r.x[2] = 5; break; }
      case 11: if(r.x.size() < 2) c.prune(); { size_t at = 1, m = r.x.size() - 1; V v; a.view(&at, &m, v); a = v; r.x.erase(r.x.begin()); r.s[0] = m; } break;
      default: { if(!r.init) c.prune(); a.reshape(r.x.size()); bool thrown = false; try { a.reshape(r.x.size() + 1); } catch(std::runtime_error&) { thrown = true; } c.check(thrown, "a vector cannot be reshaped to another size"); X w(a); a = w; } break;
      }
      c.step(); MC_TRACE(c, r.str()); c.state(mc::mix(r.hash(), i)); same(c, a, r, true); for(size_t j = 0; j < r.x.size(); ++j) c.eq(a[j], r.x[j], "element of a vector"); c.check(b[0] == 7 && b[1] == 8, "the source of an assignment is unchanged");
   }
   c.outcome(r.hash());
}
// matrices
MC_SCENARIO("histories/matrix") {
   typedef marray::Matrix<int> X; size_t n = (size_t)c.range(0, 2), m = (size_t)c.range(1, 3); bool f = c.flip(); X a(n, m, 4, order(f)); RA r; if(n) { r = RA(Shape{n, m}, 4, f); fill(r, a, 20); } else if(m > 1) c.prune();
   X b(2, 3, 1, order(true)); RA q(Shape{2, 3}, 1, true); fill(q, b, 70); const int steps = c.tier(2, 3);
   for(int i = 0; i < steps; ++i) {
      switch(c.choose(14)) {
      case 0: a = b; r = q; break;
      case 1: { size_t x = (size_t)c.range(0, 3), y = (size_t)c.range(1, 3); a.resize(x, y, 50 + i); r = x ? r.resized(Shape{x, y}, 50 + i) : RA(); break; }
      case 2: { size_t x = (size_t)c.range(0, 3), y = (size_t)c.range(1, 3); a.resize(marray::SkipInitialization, x, y); RA w = x ? r.resized(Shape{x, y}, -1) : RA(); for(size_t j = 0; j < w.x.size(); ++j) if(w.x[j] == -1) { size_t k[] = {j % w.s[0], j / w.s[0]}; a(k[0], k[1]) = -1; } r = w; break; }
      case 3: { int x = 33; V v(&x); a = v; r = RA(Shape{1, 1}, 33, false); break; }
      case 4: { M s(9); X w(s); a = w; r = RA(Shape{1, 1}, 9, false); break; }
      case 5: { if(!r.init) c.prune(); size_t x = r.x.size(); if(x % 2) c.prune(); a.reshape(2, x / 2); r = r.reshaped(Shape{2, x / 2}); break; }
      case 6: if(!r.init) c.prune(); a = 6; r.x.assign(r.x.size(), 6); break;
      case 7: if(!r.init || r.s != q.s) c.prune(); { RA w = r; for(size_t j = 0; j < 6; ++j) w.x[j] = r.x[j] * q.x[j]; if(c.flip()) a = a * b; else { X z(a * b); a = z; } r = w; r.first = a.coordinateOrder() == marray::FirstMajorOrder; } break;
      case 8: { size_t p[] = {1, 0}; RA z(Shape{3, 2}, 0, true); for(size_t x = 0; x < 3; ++x) for(size_t y = 0; y < 2; ++y) z.x[z.at(Shape{x, y})] = q.x[q.at(Shape{y, x})]; if(c.flip()) a = b.permutedView(p); else { X w(b.permutedView(p)); a = w; } r = z; break; }
      case 9: a.assign(); r = RA(); break;
      case 10: { marray::Matrix<double> w(b); same(c, w, q); a = w; r = q; break; }
      case 11: { if(!r.init || r.s[0] < 2) c.prune(); size_t at[] = {1, 0}, sh[] = {r.s[0] - 1, r.s[1]}; RA z(Shape{sh[0], sh[1]}, 0, r.first); for(size_t x = 0; x < sh[0]; ++x) for(size_t y = 0; y < sh[1]; ++y) z.x[z.at(Shape{x, y})] = r.x[r.at(Shape{x + 1, y})]; a = a.view(at, sh); r = z; break; }
      case 12: { if(c.flip()) { CV v; a = v; } else { X w; a = w; } r = RA(); break; }
      default: { if(!r.init) c.prune(); X w(a); same(c, w, r); ++w; a = w; for(int& x : r.x) ++x; } break;
      }
      c.step(); MC_TRACE(c, r.str()); c.state(mc::mix(r.hash(), i)); same(c, a, r, r.x.size() == 1); if(r.x.size() == 1) r.first = a.coordinateOrder() == marray::FirstMajorOrder; same(c, b, q);
   }
   c.outcome(r.hash());
}
