// FLAGS: -O1 -fsanitize=address
// C10 over a ladder of sizes, and the sparse array.
#include "mc.hxx"
#include <opengm/datastructures/fast_sequence.hxx>
#include <opengm/datastructures/buffer_vector.hxx>
#include <opengm/datastructures/randomaccessset.hxx>
#include <opengm/datastructures/partition.hxx>
#include <opengm/datastructures/sparsemarray/sparsemarray.hxx>
#include <opengm/utilities/queues.hxx>
#include <opengm/utilities/disjoint-set.hxx>
#include <set>
#include <map>
#include <deque>
#include <algorithm>
using mc::Ctx;
static int size(Ctx& c, int most) { static const std::vector<int> few = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 31, 32, 33, 40, 41, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 513}; std::vector<int> s; if(c.thorough) for(int i = 1; i <= most; ++i) s.push_back(i); else for(int i : few) if(i <= most) s.push_back(i); return c.pick(s); }
static int order(int how, int i, int n) { switch(how) { case 0: return i; case 1: return n - 1 - i; case 2: { int k = 7; while(std::__gcd(k, n) != 1) ++k; return (int)((long)i * k % n); } default: return i % 2 ? n - 1 - i / 2 : i / 2; } }
struct Two { int a, b; static int live; Two(int x = 0) : a(x), b(~x) { ++live; } Two(const Two& o) : a(o.a), b(o.b) { if(b != ~a) abort(); ++live; } Two& operator=(const Two& o) { if(b != ~a || o.b != ~o.a) abort(); a = o.a; b = o.b; return *this; } ~Two() { if(b != ~a) abort(); b = a; --live; } bool operator==(const Two& o) const { return a == o.a; } };
int Two::live = 0;
template<class S> static void same(Ctx& c, const S& s, const std::vector<int>& r) { c.eq(s.size(), r.size(), "size"); c.eq(s.empty(), r.empty(), "empty"); c.eq((size_t)(s.end() - s.begin()), r.size(), "end() - begin()"); for(size_t i = 0; i < r.size(); ++i) { c.eq(s[i].a, r[i], "element"); c.eq((s.begin() + i)->a, r[i], "element of the iterator"); } if(!r.empty()) { c.eq(s.front().a, r.front(), "front"); c.eq(s.back().a, r.back(), "back"); } }
// grow to one size, then a sequence of two of the other operations with a second size, with a copy of the first state that must stay
template<class S> static void sequences(Ctx& c) {
   Two::live = 0; { const int n = size(c, c.tier(257, 513)), m = c.pick(std::vector<int>{0, 1, n / 2, n - 1, n + 1, 2 * n + 1}), grow = c.choose(4), o1 = c.choose(7), o2 = c.choose(7); MC_TRACE(c, n << " " << m << " grow " << grow << " operations " << o1 << " " << o2); S a, k; std::vector<int> r; int next = 1;
   if(grow == 0) for(int i = 0; i < n; ++i) { a.push_back(Two(next)); r.push_back(next++); } else if(grow == 1) { S t((size_t)n, Two(5)); a = t; r.assign(n, 5); } else if(grow == 2) { a.resize(n); r.assign(n, 0); for(int i = 0; i < n; ++i) { a[i] = Two(next); r[i] = next++; } } else { a.reserve(n); for(int i = 0; i < n; ++i) { a.push_back(Two(next)); r.push_back(next++); } }
   same(c, a, r); k = a; const std::vector<int> rk = r;
   for(int o : {o1, o2}) { switch(o) { case 0: { size_t old = r.size(); a.resize(m); r.resize(m); for(size_t i = old; i < r.size(); ++i) { a[i] = Two(next); r[i] = next++; } break; } case 1: a.clear(); r.clear(); for(int i = 0; i < m; ++i) { a.push_back(Two(next)); r.push_back(next++); } break; case 2: for(int i = 0; i < m; ++i) { a.push_back(Two(next)); r.push_back(next++); } break; case 3: { std::vector<Two> s; r.clear(); for(int i = 0; i < m; ++i) { s.push_back(Two(next)); r.push_back(next++); } a.assign(s.begin(), s.end()); break; } case 4: { S t(a); t.push_back(Two(99)); std::vector<int> q = r; q.push_back(99); same(c, t, q); a = t; r = q; break; } case 5: { S t((size_t)m, Two(8)); a = t; r.assign(m, 8); break; } default: a.reserve(m); a = k; r = rk; } same(c, a, r); same(c, k, rk); c.step(); } c.state(mc::mix(n * 1000 + m, grow * 49 + o1 * 7 + o2)); }
   c.eq(Two::live, 0, "elements alive after destruction");
}
MC_SCENARIO("ladder/fast sequence 5") { sequences<opengm::FastSequence<Two, 5> >(c); }
MC_SCENARIO("ladder/fast sequence 20") { sequences<opengm::FastSequence<Two, 20> >(c); }
MC_SCENARIO("ladder/buffer vector") { sequences<opengm::BufferVector<Two> >(c); }
MC_SCENARIO("ladder/random access set") {
   const int n = size(c, 257), in = c.choose(4), out = c.choose(4), k = c.range(1, 3), ranges = c.choose(2); opengm::RandomAccessSet<int> s; std::set<int> r; MC_TRACE(c, n << " in " << in << " out " << out << " every " << k); c.state(mc::mix(n * 64 + in * 16 + out * 4 + k, ranges));
   if(ranges) { std::vector<int> v; for(int i = 0; i < n; ++i) v.push_back(3 * order(in, i, n)); s.insert(v.begin(), v.begin() + n / 2); s.insert(v.begin() + n / 3, v.end()); r.insert(v.begin(), v.end()); } else for(int i = 0; i < n; ++i) { const int x = 3 * order(in, i, n); auto q = s.insert(x); c.check(q.second && *q.first == x, "insert"); auto q2 = s.insert(x); c.check(!q2.second && *q2.first == x, "insert again"); r.insert(x); c.eq(s.size(), r.size(), "size"); }
   auto all = [&]() { c.check(s.size() == r.size() && std::equal(r.begin(), r.end(), s.begin()), "elements"); for(int x = -1; x <= 3 * n; ++x) { c.eq(s.count(x), r.count(x), "count"); c.eq(s.find(x) != s.end(), r.count(x) > 0, "find"); if(r.count(x)) c.eq(*s.find(x), x, "found element"); auto l = r.lower_bound(x); auto sl = s.lower_bound(x); c.check(l == r.end() ? sl == s.end() : sl != s.end() && *sl == *l, "lower_bound"); auto u = r.upper_bound(x); auto su = s.upper_bound(x); c.check(u == r.end() ? su == s.end() : su != s.end() && *su == *u, "upper_bound"); } };
   all(); const opengm::RandomAccessSet<int> copy(s); const std::set<int> rc(r); for(int i = 0; i < n; i += k) { const int x = 3 * order(out, i, n); c.eq(s.erase(x), r.erase(x), "erase"); c.eq(s.erase(x + 1), (size_t)0, "erase of another"); } all(); c.check(copy.size() == rc.size() && std::equal(rc.begin(), rc.end(), copy.begin()), "copy"); for(int i = 0; i < n; ++i) { s.insert(3 * order(out, i, n) + 1); r.insert(3 * order(out, i, n) + 1); } all(); c.step();
}
struct Ref { std::vector<int> l; Ref(int n) : l(n) { for(int i = 0; i < n; ++i) l[i] = i; } void merge(int a, int b) { const int x = l[a], y = l[b]; for(int& e : l) if(e == y) e = x; } int sets() const { return (int)std::set<int>(l.begin(), l.end()).size(); } };
// merging patterns: one after the other, pairs then pairs of pairs, all to one, to and fro, every k-th
static std::vector<std::pair<int, int> > merges(int how, int n) { std::vector<std::pair<int, int> > m; switch(how) { case 0: for(int i = 1; i < n; ++i) m.push_back({i - 1, i}); break; case 1: for(int s = 1; s < n; s *= 2) for(int i = 0; i + s < n; i += 2 * s) m.push_back({i, i + s}); break; case 2: for(int s = 1; s < n; s *= 2) for(int i = 0; i + s < n; i += 2 * s) m.push_back({std::min(n - 1, i + 2 * s - 1), i + s - 1}); break; case 3: for(int i = 1; i < n; ++i) m.push_back({i, 0}); break; case 4: for(int i = 0; i + 1 < n - 1 - i; ++i) { m.push_back({i, n - 1 - i}); m.push_back({i + 1, i}); } break; case 5: for(int i = n - 1; i >= 3; --i) m.push_back({i, i % 3}); break; default: for(int i = 0; i < n; ++i) { int a = order(2, i, n), b = order(2, (i + 1) % n, n); if(i % 4 != 3) m.push_back({a, b}); } } return m; }
template<class P> static void partitions(Ctx& c, int n, int how) { P p(n); Ref r(n); const auto ms = merges(how, n); const bool compress = c.flip(); size_t at = 0; auto all = [&]() { const P& q = p; c.eq((int)p.numberOfElements(), (int)r.l.size(), "numberOfElements"); c.eq((int)p.numberOfSets(), r.sets(), "numberOfSets"); std::map<int, int> rep; for(size_t i = 0; i < r.l.size(); ++i) { const int f = compress ? (int)p.find(i) : (int)q.find(i); auto z = rep.insert({r.l[i], f}); c.eq(z.first->second, f, "one representative per set"); c.eq(r.l[f], r.l[i], "the representative is in the set"); } std::vector<int> reps(r.l.size() + 1, -1); q.representatives(reps.begin()); std::set<int> want; for(auto& x : rep) want.insert(x.second); c.check(std::vector<int>(want.begin(), want.end()) == std::vector<int>(reps.begin(), reps.begin() + want.size()), "representatives"); std::vector<int> el(r.l.size()); q.elementLabeling(el.begin()); std::map<int, int> lab; const int ns = r.sets(); for(size_t i = 0; i < el.size(); ++i) { c.check(el[i] >= 0 && el[i] < ns, "elementLabeling"); auto z = lab.insert({r.l[i], el[i]}); c.eq(z.first->second, el[i], "elementLabeling of one set"); } std::set<int> d; for(auto& x : lab) d.insert(x.second); c.eq((int)d.size(), r.sets(), "elementLabeling of different sets"); std::map<typename P::value_type, typename P::value_type> rl; q.representativeLabeling(rl); c.eq((int)rl.size(), r.sets(), "representativeLabeling"); };
   for(auto& m : ms) { p.merge(m.first, m.second); r.merge(m.first, m.second); if(++at % (1 + ms.size() / 6) == 0) all(); } all(); p.insert(3); for(int i = 0; i < 3; ++i) r.l.push_back(1000000 + n + i); { Ref t((int)r.l.size()); std::map<int, int> first; for(size_t i = 0; i < r.l.size(); ++i) { auto z = first.insert({r.l[i], (int)i}); t.l[i] = z.first->second; } r = t; } all(); p.merge(n + 2, 0); r.merge(n + 2, 0); all(); p.merge(n + 1, n + 2); r.merge(n + 1, n + 2); all(); c.state(n * 16 + how * 2 + compress); c.step(); }
MC_SCENARIO("ladder/partition") { const int n = size(c, 257), how = c.choose(7); MC_TRACE(c, n << " elements, merges " << how); if(c.flip()) partitions<opengm::Partition<size_t> >(c, n, how); else partitions<opengm::Partition<unsigned short> >(c, n, how); }
MC_SCENARIO("ladder/disjoint set") { const int n = size(c, 257), how = c.choose(7); MC_TRACE(c, n << " elements, merges " << how); opengm::disjoint_set<size_t> p(n); Ref r(n); size_t at = 0; const auto ms = merges(how, n); for(auto& m : ms) { p.join(m.first, m.second); r.merge(m.first, m.second); if(++at % (1 + ms.size() / 6) && at < ms.size()) continue; c.eq((int)p.numberOfSets(), r.sets(), "numberOfSets"); std::map<int, int> rep, count; for(int x : r.l) ++count[x]; for(int i = 0; i < n; ++i) { auto z = rep.insert({r.l[i], (int)p.find(i)}); c.eq(z.first->second, (int)p.find(i), "one representative per set"); c.eq(r.l[p.find(i)], r.l[i], "the representative is in the set"); c.eq((int)p.size(i), count[r.l[i]], "size of the set"); } } c.state(n * 8 + how); c.step(); }
template<class CMP> static void queue(Ctx& c, int n) {
   const int in = c.choose(4), prio = c.choose(4), change = c.choose(4); CMP lt; opengm::ChangeablePriorityQueue<float, CMP> q(n + 3); std::map<int, float> r; MC_TRACE(c, n << " in " << in << " priorities " << prio << " changes " << change); auto pr = [&](int i) { return (float)(prio == 0 ? i : prio == 1 ? n - i : prio == 2 ? i % 5 : (i * 37) % (n + 1)); };
   for(int i = 0; i < n; ++i) { const int x = order(in, i, n); q.push(x, pr(x)); r[x] = pr(x); } for(int i = 0; i < n; i += 2) { if(change == 0) { q.changePriority(i, pr(i) + n); r[i] = pr(i) + n; } if(change == 1) { q.push(i, pr(i) - n); r[i] = pr(i) - n; } if(change == 2) { q.deleteItem(i); r.erase(i); } } if(change == 3 && n > 4) { q.deleteItem(n / 2); r.erase(n / 2); q.push(n + 2, 2.5f); r[n + 2] = 2.5f; q.push(n / 2, 1.5f); r[n / 2] = 1.5f; }
   c.eq((int)q.size(), (int)r.size(), "size"); bool first = true; float last = 0; while(!r.empty()) { const int t = q.top(); const float p = q.topPriority(); c.check(r.count(t) && r[t] == p && q.priority(t) == p, "top"); float b = r.begin()->second; for(auto& x : r) if(lt(x.second, b)) b = x.second; c.eq(p, b, "best priority"); c.check(first || !lt(p, last), "order"); first = false; last = p; q.pop(); r.erase(t); c.check(!q.contains(t), "popped element"); c.eq((int)q.size(), (int)r.size(), "size"); } c.check(q.empty(), "empty"); c.state(mc::mix(n, in * 16 + prio * 4 + change)); c.step();
}
MC_SCENARIO("ladder/priority queue") { const int n = size(c, 257); if(c.flip()) queue<std::less<float> >(c, n); else queue<std::greater<float> >(c, n); }
MC_SCENARIO("ladder/fifo queue") { const int n = size(c, 257), ahead = c.pick(std::vector<int>{1, 2, n / 2 + 1, n}); opengm::FiFoQueue<int> q(n); for(int round = 0; round < 3; ++round) { std::deque<int> r; for(int i = 0; i < n; ++i) { q.push(round * 1000 + i); r.push_back(round * 1000 + i); c.eq((int)q.size(), (int)r.size(), "size"); c.eq(q.front(), r.front(), "front"); if((int)r.size() >= ahead) { q.pop(); r.pop_front(); } c.eq(q.empty(), r.empty(), "empty"); } while(!r.empty() && round != 1) { c.eq(q.front(), r.front(), "front"); q.pop(); r.pop_front(); } if(round != 1) c.check(q.empty(), "empty at the end"); q.clear(); c.check(q.empty() && q.size() == 0, "empty after clear"); } c.state(n * 300 + ahead); c.step(); }
// the sparse array: every sequence of insertions, reads at every coordinate, its map, keys; also many entries
typedef opengm::SparseFunction<double, size_t, size_t> SF; typedef opengm::SparseFunction<int, unsigned, unsigned char, std::map<unsigned, int> > SN;
template<class S, class L> static void sparseSame(Ctx& c, S& s, const std::vector<L>& sh, const std::map<size_t, int>& r, int def) { size_t n = 1; for(L x : sh) n *= x; c.eq((size_t)s.size(), n, "size"); c.eq((size_t)s.dimension(), sh.size(), "dimension"); for(size_t d = 0; d < sh.size(); ++d) c.eq((size_t)s.shape(d), (size_t)sh[d], "shape"); c.eq((int)s.defaultValue(), def, "default value"); c.eq((size_t)s.container().size(), r.size(), "number of stored entries"); std::vector<size_t> x(sh.size() + 1, 0), y(sh.size()); for(size_t k = 0; k < n; ++k) { size_t q = k; for(size_t d = 0; d < sh.size(); ++d) { x[d] = q % sh[d]; q /= sh[d]; } c.eq((size_t)s.coordinateToKey(x.begin()), k, "key of a coordinate"); s.keyToCoordinate((typename S::KeyType)k, y.begin()); c.check(std::equal(y.begin(), y.end(), x.begin()), "coordinate of a key"); auto z = r.find(k); c.eq((int)s(x.begin()), z == r.end() ? def : z->second, "value"); c.eq((int)s.valueFromKey((typename S::KeyType)k), z == r.end() ? def : z->second, "value of a key"); auto w = s.container().find((typename S::KeyType)k); c.eq(w != s.container().end(), z != r.end(), "stored entry"); } }
template<class S, class L> static void sparseHistory(Ctx& c) { static const std::vector<std::vector<L> > shapes = {{1}, {3}, {2, 3}, {3, 2}, {2, 1, 2}, {2, 2, 3}}; const std::vector<L> sh = c.pick(shapes); const int def = c.choose(2) * 3; S s(sh.begin(), sh.end(), def); S other(s); std::map<size_t, int> r; size_t n = 1; for(L x : sh) n *= x; const int depth = c.tier(3, 4); for(int i = 0; i < depth; ++i) { const size_t k = c.choose((int)n); std::vector<size_t> x(sh.size() + 1, 0); size_t q = k; for(size_t d = 0; d < sh.size(); ++d) { x[d] = q % sh[d]; q /= sh[d]; } const int v = i == 1 ? def : 10 + i; if(r.count(k)) { if(c.flip()) { s.container()[(typename S::KeyType)k] = v; r[k] = v; } else { s.container().erase((typename S::KeyType)k); r.erase(k); } } else { s.insert(x.begin(), v); r[k] = v; } sparseSame(c, s, sh, r, def); { S t(s); other = t; } sparseSame(c, other, sh, r, def); c.step(); mc::u64 h = sh.size() * 100 + n; for(auto& e : r) h = mc::mix(h, e.first * 64 + e.second); c.state(h); } }
MC_SCENARIO("sparse array") { sparseHistory<SF, size_t>(c); }
MC_SCENARIO("sparse array/narrow") { sparseHistory<SN, unsigned char>(c); }
MC_SCENARIO("ladder/sparse array") { const int n = size(c, 257), in = c.choose(4), every = c.range(1, 3), kind = c.choose(3); std::vector<size_t> sh = kind == 0 ? std::vector<size_t>{(size_t)n} : kind == 1 ? std::vector<size_t>{3, (size_t)n} : std::vector<size_t>{(size_t)n, 2, 2}; size_t m = 1; for(size_t x : sh) m *= x; SF s(sh.begin(), sh.end(), 1.0); std::map<size_t, int> r; for(size_t i = 0; i < m; i += every) { const size_t k = order(in, (int)i, (int)m); std::vector<size_t> x(sh.size()); size_t q = k; for(size_t d = 0; d < sh.size(); ++d) { x[d] = q % sh[d]; q /= sh[d]; } s.insert(x.begin(), (double)i + 2); r[k] = (int)i + 2; } sparseSame(c, s, sh, r, 1); c.state(mc::mix(n * 4 + in, every * 3 + kind)); c.step(); }
