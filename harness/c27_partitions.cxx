// FLAGS: -O0 -D_GLIBCXX_ASSERTIONS -fsanitize=address -fno-sanitize-recover=all
// C27: the numbering of the partitions of a set.
#include "mc.hxx"
#include <algorithm>
#include <cstdint>
#include <functional>
#include <limits>
#include <memory>
#include <set>
#include <stdexcept>
#include <vector>
#include <opengm/utilities/partitions.hxx>
// ---- partitions; the storage is shared by all objects of one type, so every history gets a type of its own
template<int K> struct Label { size_t v; Label(size_t x = 0) : v(x) {} operator size_t() const { return v; } Label& operator++() { ++v; return *this; } };
namespace std { template<int K> struct numeric_limits<Label<K> > : numeric_limits<size_t> {}; }
static const size_t BELL[] = {1, 1, 2, 5, 15, 52, 203, 877};
static std::vector<std::vector<size_t> > setPartitions(int n) { std::vector<std::vector<size_t> > r; std::vector<size_t> l(n); std::function<void(int, size_t)> go = [&](int i, size_t m) { if(i == n) { r.push_back(l); return; } for(size_t x = 0; x <= m; ++x) { l[i] = x; go(i + 1, std::max(m, x + 1)); } }; go(0, 0); return r; }
static bool sameGroups(const std::vector<size_t>& a, const std::vector<size_t>& b) { for(size_t i = 0; i < a.size(); ++i) for(size_t j = 0; j < i; ++j) if((a[i] == a[j]) != (b[i] == b[j])) return false; return true; }
struct Numbers { virtual ~Numbers() {} virtual void resize(int) = 0; virtual size_t bell(int) = 0; virtual size_t index(const std::vector<size_t>&) = 0; virtual size_t indexByIterator(const std::vector<size_t>&) = 0; virtual unsigned long long number(const std::vector<size_t>&) = 0; virtual unsigned long long numberByIterator(const std::vector<size_t>&) = 0; virtual unsigned long long get(size_t) = 0; virtual size_t indexOf(unsigned long long) = 0; virtual void labels(size_t, std::vector<size_t>&) = 0; };
template<class I, class L> struct NumbersOf : Numbers {
   typedef std::vector<size_t> V; opengm::Partitions<I, L> p;
   virtual void resize(int n) { p.resize(n); } virtual size_t bell(int n) { return p.BellNumber(n); } virtual size_t index(const V& l) { return p.label2Index(std::vector<L>(l.begin(), l.end())); } virtual size_t indexByIterator(const V& l) { return p.label2Index(l.begin(), l.size()); }
   virtual unsigned long long number(const V& l) { return p.label2Number(std::vector<L>(l.begin(), l.end())); } virtual unsigned long long numberByIterator(const V& l) { return p.label2Number(l.begin(), l.size()); } virtual unsigned long long get(size_t k) { return p.getPartition(k); } virtual size_t indexOf(unsigned long long x) { return p.number2Index((I)x); } virtual void labels(size_t k, V& l) { p.getPartition(k, l); }
};
static void numbering(mc::Ctx& c, Numbers& p, int n, bool resize) {
   if(resize) p.resize(n); c.eq(p.bell(n), BELL[n], "Bell number"); auto all = setPartitions(n); std::set<size_t> seen; std::set<unsigned long long> numbers;
   for(auto& l : all) {
      std::vector<size_t> ll; for(size_t x : l) ll.push_back(2 * x + 1); size_t k = p.index(ll); c.check(k < BELL[n], "index of a partition is out of range"); c.check(seen.insert(k).second, "two partitions have the same index"); c.eq(p.indexByIterator(l), k, "index of the same partition given by iterators");
      unsigned long long num = p.number(ll); c.check(numbers.insert(num).second, "two partitions have the same number"); c.eq(p.get(k), num, "number of a partition"); c.eq(p.indexOf(num), k, "index of a number"); c.eq(p.numberByIterator(l), num, "number of the same partition given by iterators");
      if(n > 0) { std::vector<size_t> back(n, 99); p.labels(k, back); c.check(sameGroups(back, l), "the labels of a partition do not give the partition back"); } c.step();
   }
   c.eq(seen.size(), BELL[n], "number of partitions");
   if(n >= 3 && n <= 4) for(unsigned long long x = 0; x < (1ull << (n * (n - 1) / 2)); ++x) if(!numbers.count(x)) c.eq(p.indexOf(x), (size_t)-1, "index of a number that is no partition");
}
template<int K, int LAST> struct Make { static Numbers* of(int k) { return k == K ? new NumbersOf<size_t, Label<K> >() : Make<K + 1, LAST>::of(k); } };
template<int LAST> struct Make<LAST, LAST> { static Numbers* of(int) { return 0; } };
MC_SCENARIO("partitions") { // ask about the partitions of two sets in any order, having built them or not
   int a = c.choose(c.tier(6, 8)), b = c.choose(c.tier(6, 8)), built = c.choose(2); int k = (a * 8 + b) * 2 + built; c.state(k); std::unique_ptr<Numbers> x(Make<0, 128>::of(k)), y(Make<0, 128>::of(k)); numbering(c, *x, a, built); numbering(c, *y, b, built); numbering(c, *x, a, false); c.outcome(mc::mix(a, b)); }
MC_SCENARIO("partitions/narrow") { // numbers that do not fit are refused
   int n = c.choose(8); opengm::Partitions<unsigned char, size_t> p; bool fits = n * (n - 1) / 2 <= 8, threw = false; try { p.resize(n); } catch(std::exception&) { threw = true; } c.eq(threw, !fits, "sets whose partition numbers do not fit"); if(fits) { NumbersOf<unsigned char, size_t> q; numbering(c, q, n, false); } c.state(n); c.outcome(n * 2 + threw); }
