// FLAGS: -O1 -fsanitize=address
// C10: every operation sequence up to a depth on the containers, against standard containers.
#include "mc.hxx"
#include <opengm/datastructures/fast_sequence.hxx>
#include <opengm/datastructures/buffer_vector.hxx>
#include <opengm/datastructures/randomaccessset.hxx>
#include <opengm/datastructures/partition.hxx>
#include <opengm/utilities/queues.hxx>
#include <opengm/utilities/disjoint-set.hxx>
#include <set>
#include <deque>
#include <list>
#include <algorithm>
using mc::Ctx;

// element type that notices leaks, double destruction and use of dead objects
struct El {
   static int live; int v; int tag;
   El() : v(-7), tag(12345) { ++live; }
   El(int x) : v(x), tag(12345) { ++live; }
   El(const El& o) : v(o.v), tag(12345) { if(o.tag != 12345) abort(); ++live; }
   El& operator=(const El& o) { if(o.tag != 12345 || tag != 12345) abort(); v = o.v; return *this; }
   ~El() { if(tag != 12345) abort(); tag = 0; --live; }
   bool operator==(const El& o) const { return v == o.v; }
};
int El::live = 0;

template<class S> void same(Ctx& c, const S& s, const std::vector<int>& r, const char* what) {
   c.eq(s.size(), r.size(), what);
   c.eq(s.empty(), r.empty(), "empty()");
   if(r.empty()) return;
   c.check(size_t(s.end() - s.begin()) == r.size(), "end()-begin() is not size()");
   for(size_t i = 0; i < r.size(); ++i) {
      c.eq(s[i].v, r[i], what);
      c.eq((s.begin() + i)->v, r[i], "iterator element");
   }
   c.eq(s.front().v, r.front(), "front()"); c.eq(s.back().v, r.back(), "back()");
}
template<class S> void sequenceScenario(Ctx& c, int depth, int maxLen) {
   El::live = 0;
   u_int64_t h = 0;
   {
      std::list<S> keep;               // [0] is A, [1] is B
      std::vector<int> ref[2]; int next = 1;
      int init = c.choose(5);
      for(int k = 0; k < 2; ++k) {
         if(init == 0) keep.push_back(S());
         else if(init == 1) keep.push_back(S(size_t(0)));
         else if(init == 2) { keep.push_back(S(size_t(k + 1), El(50 + k))); ref[k].assign(k + 1, 50 + k); }
         else if(init == 3) { keep.push_back(S(size_t(4), El(60 + k))); ref[k].assign(4, 60 + k); }
         else { keep.push_back(S(size_t(3))); ref[k].resize(3); for(int i = 0; i < 3; ++i) { keep.back()[i] = El(next); ref[k][i] = next++; } }
      }
      S& A = keep.front(); S& B = keep.back();
      for(int d = 0; d < depth; ++d) {
         int op = c.choose(12);
         switch(op) {
            case 0: A.push_back(El(next)); ref[0].push_back(next++); break;
            case 1: B.push_back(El(next)); ref[1].push_back(next++); break;
            case 2: A.clear(); ref[0].clear(); break;
            case 3: A = B; ref[0] = ref[1]; break;
            case 4: B = A; ref[1] = ref[0]; break;
            case 5: { S C(A); same(c, C, ref[0], "copy"); C.push_back(El(99)); std::vector<int> r = ref[0]; r.push_back(99); same(c, C, r, "copy after push_back"); B = C; ref[1] = r; } break;
            case 6: { size_t n = ref[0].size() / 2; A.resize(n); ref[0].resize(n); } break;
            case 7: { size_t o = ref[0].size(), n = o + 2; A.resize(n); ref[0].resize(n); for(size_t i = o; i < n; ++i) { A[i] = El(next); ref[0][i] = next++; } } break;
            case 8: { size_t n = ref[0].size() + 3; A.reserve(n); } break;
            case 9: { std::vector<El> src; int n = 1 + c.choose(4); ref[1].clear(); for(int i = 0; i < n; ++i) { src.push_back(El(next)); ref[1].push_back(next++); } B.assign(src.begin(), src.end()); } break;
            case 10: A = A; break;
            case 11: if(!ref[0].empty()) { size_t i = ref[0].size() - 1; A[i] = El(next); ref[0][i] = next++; *A.begin() = El(next); ref[0][0] = next++; } else c.prune(); break;
         }
         if((int)ref[0].size() > maxLen || (int)ref[1].size() > maxLen) c.prune();
         MC_TRACE(c, "op " << op << " sizes " << ref[0].size() << " " << ref[1].size());
         same(c, A, ref[0], "A"); same(c, B, ref[1], "B");
         h = mc::mix(init, ref[0].size() * 20 + ref[1].size()); for(size_t i = 0; i < ref[0].size(); ++i) h = mc::mix(h, ref[0][i]); for(size_t i = 0; i < ref[1].size(); ++i) h = mc::mix(h, 1000 + ref[1][i]); c.state(h);
      }
   }
   c.eq(El::live, 0, "elements alive after destruction");
}
// the buffer vector keeps superseded buffers of an emptied vector, hence the leak count is only checked where
// the standard promises it; memory errors are caught by the sanitiser in both
MC_SCENARIO("fast_sequence/max2") { sequenceScenario<opengm::FastSequence<El, 2> >(c, c.tier(4, 5), 9); }
MC_SCENARIO("fast_sequence/max1") { sequenceScenario<opengm::FastSequence<El, 1> >(c, c.tier(3, 4), 9); }
MC_SCENARIO("fast_sequence/max5") { sequenceScenario<opengm::FastSequence<El, 5> >(c, c.tier(3, 4), 12); }
MC_SCENARIO("buffer_vector") { sequenceScenario<opengm::BufferVector<El> >(c, c.tier(4, 5), 9); }

MC_SCENARIO("random_access_set") {
   typedef opengm::RandomAccessSet<int> S;
   S A, B; std::set<int> ra, rb;
   const int N = c.tier(3, 4);
   int init = c.choose(3);
   if(init == 1) { int v[] = {2, 0, 2}; A = S(v, v + 3); ra.insert(v, v + 3); }
   if(init == 2) { S t(size_t(3)); t.insert(3); t.insert(1); B = t; rb.insert(1); rb.insert(3); std::vector<int> x(2); x[0] = 0; x[1] = 3; A.assignFromSet(x); ra.insert(0); ra.insert(3); }
   int D = c.tier(4, 5); uint64_t h = init;
   for(int d = 0; d < D; ++d) {
      int op = c.choose(8);
      int v = op < 2 ? c.choose(N) : 0;
      switch(op) {
         case 0: { std::pair<S::const_iterator, bool> r = A.insert(v); bool n = ra.insert(v).second; c.eq(r.second, n, "insert().second"); c.eq(*r.first, v, "insert() position"); } break;
         case 1: { size_t k = A.erase(v); c.eq(k, ra.erase(v), "erase(key)"); } break;
         case 2: A.clear(); ra.clear(); break;
         case 3: A.swap(B); std::swap(ra, rb); break;
         case 4: B = A; rb = ra; break;
         case 5: { if(ra.empty()) c.prune(); int i = c.choose((int)ra.size()); A.erase(A.begin() + i); std::set<int>::iterator it = ra.begin(); std::advance(it, i); ra.erase(it); } break;
         case 6: { std::vector<int> r(rb.begin(), rb.end()); r.push_back(c.choose(N)); A.insert(r.begin(), r.end()); ra.insert(r.begin(), r.end()); } break;
         case 7: { if(ra.size() < 2) c.prune(); int i = c.choose((int)ra.size()), n = c.range(0, (int)ra.size() - i); const S& cA = A; A.erase(cA.begin() + i, cA.begin() + i + n); std::set<int>::iterator a = ra.begin(); std::advance(a, i); std::set<int>::iterator b = a; std::advance(b, n); ra.erase(a, b); } break;
      }
      MC_TRACE(c, "op " << op << " value " << v);
      const S* s[2] = {&A, &B}; std::set<int>* r[2] = {&ra, &rb};
      for(int k = 0; k < 2; ++k) {
         c.eq(s[k]->size(), r[k]->size(), "size"); c.eq(s[k]->empty(), r[k]->empty(), "empty");
         c.check(std::vector<int>(s[k]->begin(), s[k]->end()) == std::vector<int>(r[k]->begin(), r[k]->end()), "elements are not the sorted set");
         S& m = const_cast<S&>(*s[k]);
         for(int x = -1; x <= N; ++x) {
            c.eq(s[k]->count(x), r[k]->count(x), "count");
            c.eq(s[k]->find(x) != s[k]->end(), r[k]->count(x) > 0, "find");
            if(r[k]->count(x)) c.eq(*s[k]->find(x), x, "find element");
            c.eq(m.find(x) != m.end(), r[k]->count(x) > 0, "find (non-const)");
            c.eq((long)(s[k]->lower_bound(x) - s[k]->begin()), (long)std::distance(r[k]->begin(), r[k]->lower_bound(x)), "lower_bound");
            c.eq((long)(s[k]->upper_bound(x) - s[k]->begin()), (long)std::distance(r[k]->begin(), r[k]->upper_bound(x)), "upper_bound");
            c.eq((long)(m.lower_bound(x) - m.begin()), (long)std::distance(r[k]->begin(), r[k]->lower_bound(x)), "lower_bound (non-const)");
            c.eq((long)(m.upper_bound(x) - m.begin()), (long)std::distance(r[k]->begin(), r[k]->upper_bound(x)), "upper_bound (non-const)");
            c.eq((long)(s[k]->equal_range(x).second - s[k]->equal_range(x).first), (long)r[k]->count(x), "equal_range");
         }
         size_t i = 0; for(std::set<int>::iterator it = r[k]->begin(); it != r[k]->end(); ++it, ++i) c.eq((*s[k])[i], *it, "operator[]");
      }
      h = 0; for(int x : ra) h = mc::mix(h, x); h = mc::mix(h, 77); for(int x : rb) h = mc::mix(h, x); c.state(h);
   }
}
MC_SCENARIO("random_access_set/greater") {
   typedef opengm::RandomAccessSet<int, std::greater<int> > S; S a; std::set<int, std::greater<int> > r;
   for(int d = 0; d < c.tier(5, 7); ++d) {
      int v = c.choose(4);
      if(c.flip()) { c.eq(a.insert(v).second, r.insert(v).second, "insert"); } else c.eq(a.erase(v), r.erase(v), "erase");
      c.check(std::vector<int>(a.begin(), a.end()) == std::vector<int>(r.begin(), r.end()), "elements in comparator order");
      uint64_t h = 1; for(int x : r) h = mc::mix(h, x); c.state(h);
   }
}

// partitions: reference is a labelling array
struct RefPart {
   std::vector<int> l;
   explicit RefPart(int n) { for(int i = 0; i < n; ++i) l.push_back(i); }
   void merge(int a, int b) { int x = l[a], y = l[b]; for(int& e : l) if(e == y) e = x; }
   int sets() const { return (int)std::set<int>(l.begin(), l.end()).size(); }
   int size(int a) const { return (int)std::count(l.begin(), l.end(), l[a]); }
};
template<class P> void samePartition(Ctx& c, P& p, const RefPart& r, bool compress) {
   int n = (int)r.l.size();
   c.eq((int)p.numberOfElements(), n, "numberOfElements"); c.eq((int)p.numberOfSets(), r.sets(), "numberOfSets");
   const P& cp = p; std::vector<int> f(n);
   for(int i = 0; i < n; ++i) { f[i] = (int)cp.find(i); c.eq(r.l[f[i]], r.l[i], "find() is in another set"); c.eq((int)cp.find(f[i]), f[i], "representative is not its own representative"); }
   if(compress) for(int i = n - 1; i >= 0; --i) { c.eq((int)p.find(i), f[i], "find with path compression differs"); }
   for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) c.eq(f[i] == f[j], r.l[i] == r.l[j], "same set");
   std::vector<int> reps(n + 1, -1); cp.representatives(reps.begin());
   std::vector<int> want; for(int i = 0; i < n; ++i) if(f[i] == i) want.push_back(i);
   c.check(std::vector<int>(reps.begin(), reps.begin() + want.size()) == want && reps[want.size()] == -1, "representatives");
   std::map<typename P::value_type, typename P::value_type> rl; cp.representativeLabeling(rl);
   c.eq(rl.size(), want.size(), "representativeLabeling size");
   for(size_t i = 0; i < want.size(); ++i) c.eq((int)rl[want[i]], (int)i, "representativeLabeling");
   std::vector<int> el(n); cp.elementLabeling(el.begin());
   for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) c.eq(el[i] == el[j], r.l[i] == r.l[j], "elementLabeling");
   for(int i = 0; i < n; ++i) c.check(el[i] >= 0 && el[i] < r.sets(), "elementLabeling out of range");
}
MC_SCENARIO("partition") {
   int n = c.range(0, 4); opengm::Partition<size_t> p(n); RefPart r(n);
   if(n == 0 && c.flip()) p = opengm::Partition<size_t>();
   int D = c.tier(3, 4); bool compress = c.flip();
   for(int d = 0; d < D; ++d) {
      int op = c.choose(4);
      if(op <= 1) { if(r.l.empty()) c.prune(); if(op == 1 && d % 2) c.prune(); int a = c.choose((int)r.l.size()), b = c.choose((int)r.l.size()); p.merge(a, b); r.merge(a, b); MC_TRACE(c, "merge " << a << " " << b); }
      else if(op == 2) { int k = c.choose(2) + 1; if(r.l.size() + k > 5) c.prune(); p.insert(k); int o = (int)r.l.size(); for(int i = 0; i < k; ++i) r.l.push_back(o + i); MC_TRACE(c, "insert " << k); for(int i = 0; i < k; ++i) for(int j = 0; j < o; ++j) if(r.l[j] == o + i) { /* label clash in the reference */ int q = 100 + d * 10 + i; r.l[o + i] = q; } }
      else { if(d == 0) c.prune(); int k = c.choose(2) * 2 + 2; p.reset(k); r = RefPart(k); MC_TRACE(c, "reset " << k); }
      samePartition(c, p, r, compress);
      uint64_t h = r.l.size(); for(int x : r.l) h = mc::mix(h, x); c.state(h);
   }
}
MC_SCENARIO("partition/many_merges") {   // deep union trees: all merge orders on 6 elements
   int n = 6; opengm::Partition<unsigned> p(n); RefPart r(n);
   for(int d = 0; d < c.tier(3, 4); ++d) { int a = c.choose(n), b = c.choose(n); p.merge(a, b); r.merge(a, b); c.eq((int)p.numberOfSets(), r.sets(), "numberOfSets"); }
   // finish: merge pairwise to get rank-2 trees, then check
   samePartition(c, p, r, true); uint64_t h = 0; for(int x : r.l) h = mc::mix(h, x); c.state(h);
   p.merge(0, 5); r.merge(0, 5); p.merge(2, 3); r.merge(2, 3); p.merge(0, 3); r.merge(0, 3); samePartition(c, p, r, true);
}
MC_SCENARIO("disjoint_set") {
   int n = c.range(1, 5); opengm::disjoint_set<size_t> p(n); RefPart r(n);
   for(int d = 0; d < c.tier(3, 5); ++d) {
      int a = c.choose(n), b = c.choose(n); p.join(a, b); r.merge(a, b);
      c.eq((int)p.numberOfSets(), r.sets(), "numberOfSets");
      for(int i = 0; i < n; ++i) { c.eq((int)p.size(i), r.size(i), "size of set"); for(int j = 0; j < n; ++j) c.eq(p.find(i) == p.find(j), r.l[i] == r.l[j], "same set"); }
      std::map<size_t, size_t> m; p.representativeLabeling(m); c.eq((int)m.size(), r.sets(), "representativeLabeling size");
      std::set<size_t> vals; for(auto& kv : m) { c.check(p.find(kv.first) == kv.first, "representative"); vals.insert(kv.second); }
      c.check((int)vals.size() == r.sets() && *vals.rbegin() + 1 == vals.size(), "representatives are not numbered consecutively");
      uint64_t h = n; for(int x : r.l) h = mc::mix(h, x); c.state(h);
   }
}
template<class CMP> void pqScenario(Ctx& c, int D) {
   const int N = 4; opengm::ChangeablePriorityQueue<int, CMP> q(N); std::map<int, int> r; CMP lt;
   for(int d = 0; d < D; ++d) {
      int op = c.choose(6);
      if(op <= 1) { int i = c.choose(N), p = c.choose(3); if(op == 1) { if(!r.count(i)) c.prune(); q.changePriority(i, p); } else { q.push(i, p); } r[i] = p; MC_TRACE(c, "push " << i << " prio " << p); }
      else if(op == 2) { if(r.empty()) c.prune(); int t = q.top(); q.pop(); c.check(r.count(t) == 1, "popped an element that is not there"); r.erase(t); MC_TRACE(c, "pop"); }
      else if(op == 3) { int i = c.choose(N); if(!r.count(i)) c.prune(); q.deleteItem(i); r.erase(i); MC_TRACE(c, "delete " << i); }
      else if(op == 4) { q.reset(); r.clear(); MC_TRACE(c, "reset"); }
      else { if(d % 2 == 0) c.prune(); q.setPriorities(1); for(auto& kv : r) kv.second = 1; MC_TRACE(c, "setPriorities 1"); }
      c.eq(q.size(), (int)r.size(), "size"); c.eq(q.empty(), r.empty(), "empty");
      for(int i = 0; i < N; ++i) { c.eq(q.contains(i), r.count(i) > 0, "contains"); if(r.count(i)) c.eq(q.priority(i), r[i], "priority"); }
      if(!r.empty()) {
         int best = r.begin()->second; for(auto& kv : r) if(lt(kv.second, best)) best = kv.second;
         c.eq(q.topPriority(), best, "topPriority"); c.check(r.count(q.top()) && r[q.top()] == best, "top is not an element of best priority");
         c.eq(q.priority(q.top()), best, "priority(top)");
      }
      uint64_t h = 3; for(auto& kv : r) h = mc::mix(h, kv.first * 8 + kv.second); c.state(h);
   }
   // drain: order must be by priority
   int last = 0; bool first = true;
   while(!q.empty()) { int p = q.topPriority(), t = q.top(); c.check(first || !lt(p, last), "drained out of order"); last = p; first = false; c.check(r.erase(t) == 1, "drained a wrong element"); q.pop(); }
   c.check(r.empty(), "elements lost");
}
MC_SCENARIO("priority_queue/min") { pqScenario<std::less<int> >(c, c.tier(4, 5)); }
MC_SCENARIO("priority_queue/max") { pqScenario<std::greater<int> >(c, c.tier(3, 5)); }
MC_SCENARIO("priority_queue/heap7") {   // larger heaps: all insertion orders of 7 elements with small priorities, then one change, then drain
   const int N = 7; opengm::ChangeablePriorityQueue<double> q(N); std::map<int, double> r;
   int n = c.range(5, N);
   for(int i = 0; i < n; ++i) { int p = c.choose(c.tier(3, 4)); q.push(i, p); r[i] = p; }
   int k = c.choose(n), act = c.choose(4);
   if(act < 3) { double p = act * 1.5; q.changePriority(k, p); r[k] = p; } else { q.deleteItem(k); r.erase(k); }
   double last = -1; while(!q.empty()) { double b = 1e9; for(auto& kv : r) b = std::min(b, kv.second); c.eq(q.topPriority(), b, "topPriority while draining"); int t = q.top(); c.check(r.count(t) && r[t] == b, "top while draining"); r.erase(t); q.pop(); c.check(b >= last, "order"); last = b; c.eq(q.contains(t), false, "contains after pop"); }
   c.check(r.empty(), "elements lost"); uint64_t h = n * 10 + act; c.state(mc::mix(h, k));
}
MC_SCENARIO("fifo_queue") {     // at most maxSize pushes between two clears, as its fixed buffer prescribes
   const int N = 4; opengm::FiFoQueue<int> q(N); std::deque<int> r; int pushed = 0, next = 1;
   for(int d = 0; d < c.tier(7, 9); ++d) {
      int op = c.choose(3);
      if(op == 0) { if(pushed == N) c.prune(); q.push(next); r.push_back(next++); ++pushed; }
      else if(op == 1) { if(r.empty()) c.prune(); c.eq(q.front(), r.front(), "front"); q.pop(); r.pop_front(); }
      else { q.clear(); r.clear(); pushed = 0; }
      c.eq(q.size(), r.size(), "size"); c.eq(q.empty(), r.empty(), "empty"); if(!r.empty()) c.eq(q.front(), r.front(), "front");
      c.state(mc::mix(pushed, r.size()));
   }
}
