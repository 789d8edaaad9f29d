// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS -UNDEBUG
// C26: samplers under every answer of the random source.
#include "gm.hxx"
#include "models.hxx"
#include <cstdlib>
#include <opengm/inference/gibbs.hxx>
#include <opengm/inference/swendsenwang.hxx>
// every draw of the C library's generator is decided here: by the explorer (all answers from a list are explored), or by a script that is enumerated inside one path
static mc::Ctx* live = 0; static const std::vector<int>* answers = 0; static std::vector<int> script; static size_t drawn = 0;
extern "C" int rand() noexcept(false) { if(live) return live->pick(*answers); if(!answers) { return 0; } if(drawn == script.size()) script.push_back(0); return (*answers)[script[drawn++]]; }
extern "C" void srand(unsigned) noexcept {}
struct Source { Source(mc::Ctx& c, const std::vector<int>& a) { live = &c; answers = &a; } ~Source() { live = 0; answers = 0; } };
// all sequences of answers: runs f once for each, with its probability when the answers are equally likely
template<class F> static void everySequence(const std::vector<int>& a, F f) { live = 0; answers = &a; script.clear(); for(;;) { drawn = 0; f(); double p = 1; for(size_t i = 0; i < drawn; ++i) p /= a.size(); f.leaf(p); script.resize(drawn); while(!script.empty() && script.back() + 1 == (int)a.size()) script.pop_back(); if(script.empty()) break; ++script.back(); } answers = 0; }
// answers whose remainders modulo m and whose place among f equal parts of the range are independent and evenly distributed
static std::vector<int> grid(int f, int m) { std::vector<int> r; for(int i = 0; i < f; ++i) for(int j = 0; j < m; ++j) { long x = (long)((i + 0.5) / f * RAND_MAX); x += (j - x % m + m) % m; r.push_back((int)x); } return r; }
// the ends of the range, with every remainder modulo 2 and 3
static const std::vector<int> ENDS2 = {0, 1, RAND_MAX - 1, RAND_MAX - 2}, ENDS3 = {0, 1, 2, RAND_MAX - 1, RAND_MAX - 2, RAND_MAX - 3};
template<class S> static std::vector<int> markov(const S& s, int n) { std::vector<int> x; for(int i = 0; i < n; ++i) x.push_back((int)s.markovState(i)); return x; }
template<class S> static std::vector<int> best(const S& s, int n) { std::vector<int> x; for(int i = 0; i < n; ++i) x.push_back((int)s.currentBestState(i)); return x; }
template<class ACC> static bool better(double a, double b) { return IsMax<ACC>::value ? a > b : a < b; }
static const double EPS = 1e-9;
// what every sampler promises at every visit; all tells the best labeling among those that count
template<class ACC, class S> static void consistent(mc::Ctx& c, const S& s, const RefModel& r, bool mult) { const int n = r.L.size(); c.near((double)s.markovValue(), r.eval(markov(s, n), mult), EPS, "value of the current state"); c.near((double)s.currentBestValue(), r.eval(best(s, n), mult), EPS, "value of the best state"); }
template<class GM, class ACC> struct GibbsRun {
   typedef opengm::Gibbs<GM, ACC> G; typedef opengm::GibbsMarginalVisitor<G> MV; static constexpr bool mult = IsMult<typename GM::OperatorType>::value;
   mc::Ctx& c; const RefModel& r; MV mv; std::vector<std::vector<int> > sampled; std::vector<bool> acc; std::vector<int> last; double top; int visits, stop; int burn;
   GibbsRun(mc::Ctx& cc, const GM& gm, const RefModel& rr) : c(cc), r(rr), mv(gm), top(0), visits(0), stop(-1), burn(0) {}
   void begin(G& g) { last = markov(g, r.L.size()); consistent<ACC>(c, g, r, mult); if(visits == 0) top = r.eval(last, mult); mv.begin(g); }
   size_t operator()(G& g) { std::vector<int> now = markov(g, r.L.size()); int changed = 0; for(size_t i = 0; i < now.size(); ++i) { changed += now[i] != last[i]; c.check(now[i] >= 0 && now[i] < r.L[i], "label in range"); } c.check(changed <= 1, "a step moves at most one variable"); double v = r.eval(now, mult); if(better<ACC>(v, top)) top = v; consistent<ACC>(c, g, r, mult); c.near((double)g.currentBestValue(), top, EPS, "best value so far"); size_t before = mv.numberOfSamples(); mv(g); if(mv.numberOfSamples() != before) { sampled.push_back(now); acc.push_back(changed != 0); c.eq(mv.numberOfSamples(), before + 1, "one sample per visit"); } last = now; ++visits; return visits == stop ? 1 : 0; }
   void end(G& g) { mv.end(g); }
   void addLog(const std::string&) {} void log(const std::string&, double) {}
};
static const std::vector<std::vector<double> > TABLES2 = {{0, 1, 2, 3}, {3, 0, 1, 0}, {1, 1, 1, 1}, {0, 2, 2, 0}};
template<class GM> static void small(mc::Ctx& c, GM& gm, RefModel& r, int n, bool mult) { 
   r.L.assign(n, 2); if(c.flip()) r.L[0] = 3; auto val = [&](int k) { double x = (k * 7) % 5; return mult ? x + 1 : x; }; int seed = c.choose(c.tier(2, 4));
   auto add = [&](std::vector<int> v, int s) { RefFactor f; f.v = v; f.t.resize(r.tableSize(v)); for(size_t k = 0; k < f.t.size(); ++k) f.t[k] = val((int)k * (s + 1) + s); r.f.push_back(f); };
   for(int i = 0; i < n; ++i) if(seed % 2 || i == 0) add({i}, i + seed); for(int i = 0; i + 1 < n; ++i) add({i, i + 1}, i + seed + 2); if(n == 3 && seed > 1) add({0, 1, 2}, 3); build(gm, r); }
template<class GM, class ACC> static void gibbs(mc::Ctx& c, int n, int steps, bool temperature = false) {
   typedef GibbsRun<GM, ACC> R; typedef typename R::G G; RefModel r; GM gm; small(c, gm, r, n, R::mult); typename G::Parameter p(steps, 0); 
   p.numberOfBurnInSteps_ = c.choose(3); p.maxNumberOfSamplingSteps_ = std::max(1, steps - (int)p.numberOfBurnInSteps_); if(c.flip()) p.variableProposal_ = G::Parameter::CYCLIC; p.useTemp_ = temperature || c.choose(c.tier(1, 2)); int start = c.choose(3); std::vector<size_t> s(n, 1); if(start == 1) p.startPoint_ = s; 
   G g(gm, p); if(start == 2) { std::vector<typename GM::LabelType> l(s.begin(), s.end()); g.setStartingPoint(l.begin()); } R v(c, gm, r); std::vector<size_t> mi; for(int i = 0; i < n; ++i) v.mv.addMarginal(i); std::vector<int> pair; if(n > 1) { size_t q[] = {0, (size_t)n - 1}; v.mv.addMarginal(q, q + 2); } v.stop = c.choose(3); if(!v.stop) v.stop = -1; c.state(mc::mix(r.hash(), start)); c.step(); MC_TRACE(c, r.str());
   { Source src(c, n == 2 && r.L[0] == 2 ? ENDS2 : ENDS3); g.infer(v); } if(v.stop > 0) c.check(v.visits <= v.stop, "a visitor's request ends the run");
   std::vector<typename GM::LabelType> a; g.arg(a); c.check(toInt(a) == best(g, n), "the labeling returned is the best state"); c.near((double)g.value(), r.eval(toInt(a), R::mult), EPS, "value of the labeling returned"); c.near((double)g.value(), v.top, EPS, "the labeling returned is the best one visited");
   if(p.numberOfBurnInSteps_ == 0) c.eq(v.sampled.size(), (size_t)v.visits, "every visit after burn-in is a sample");
   c.eq(v.mv.numberOfSamples(), v.sampled.size(), "number of samples"); size_t na = 0; for(bool x : v.acc) na += x; c.eq(v.mv.numberOfAcceptedSamples(), na, "accepted samples"); c.eq(v.mv.numberOfRejectedSamples(), v.sampled.size() - na, "rejected samples"); c.eq(v.mv.numberOfMarginals(), (size_t)(n > 1 ? n + 1 : n), "marginals");
   for(size_t m = 0; m < v.mv.numberOfMarginals(); ++m) { const auto& f = v.mv.marginal(m); std::vector<int> want(f.size(), 0); for(auto& x : v.sampled) { size_t k = 0, st = 1; for(size_t d = 0; d < (size_t)f.numberOfVariables(); ++d) { k += st * x[f.variableIndex(d)]; st *= r.L[f.variableIndex(d)]; } ++want[k]; } for(size_t k = 0; k < want.size(); ++k) { std::vector<size_t> co; size_t q = k; for(size_t d = 0; d < (size_t)f.numberOfVariables(); ++d) { co.push_back(q % r.L[f.variableIndex(d)]); q /= r.L[f.variableIndex(d)]; } c.near((double)f(co.begin()), want[k], 0, "marginal"); } }
   // a second run goes on from there; a reset forgets everything
   if(v.stop > 0) { double before = (double)g.value(); v.stop = -1; p.maxNumberOfSamplingSteps_ = 1; if(c.flip()) { g.reset(); c.near((double)g.currentBestValue(), r.eval(start == 1 ? std::vector<int>(n, 1) : std::vector<int>(n, 0), R::mult), EPS, "best value after a reset"); c.check(best(g, n) == markov(g, n), "best state after a reset"); } else { static const std::vector<int> zero = {0}; Source src(c, zero); g.infer(v); c.check(!better<ACC>(before, (double)g.value()), "a second run does not lose the best labeling"); } }
   c.outcome(mc::mix(v.visits, mc::bitsOf(v.top))); }
typedef GmOf<double, opengm::Adder>::type GA; typedef GmOf<double, opengm::Multiplier>::type GP; typedef opengm::Minimizer Min; typedef opengm::Maximizer Max;
MC_SCENARIO("gibbs/one-variable") { gibbs<GA, Min>(c, 1, c.tier(2, 3)); }
MC_SCENARIO("gibbs/two-variables") { gibbs<GA, Min>(c, 2, c.tier(2, 3)); }
MC_SCENARIO("gibbs/two-variables-product") { gibbs<GP, Max>(c, 2, 2); }
MC_SCENARIO("gibbs/temperature") { gibbs<GA, Min>(c, c.range(1, 2), 2, true); }
MC_SCENARIO("gibbs/three-variables") { gibbs<GP, Max>(c, 3, 1); }
// cyclic proposals reach every variable in turn
MC_SCENARIO("gibbs/cyclic") { int n = c.range(1, 5); RefModel r; r.L.assign(n, 2); GA gm; build(gm, r); typedef opengm::Gibbs<GA, Min> G; G::Parameter p(2 * n * c.range(1, 3), 0); p.variableProposal_ = G::Parameter::CYCLIC; G g(gm, p); struct V { std::set<int> moved; std::vector<int> last; int n; void begin(G& g) { last = markov(g, n); } size_t operator()(G& g) { std::vector<int> x = markov(g, n); for(int i = 0; i < n; ++i) if(x[i] != last[i]) moved.insert(i); last = x; return 0; } void end(G&) {} } v; v.n = n; c.state(n); c.step(); { static const std::vector<int> one = {1}; Source s(c, one); g.infer(v); } c.eq((int)v.moved.size(), n, "variables moved in a cycle"); c.outcome(n); }
// the transition probabilities of one step leave the model's distribution unchanged
template<class RUN> static void stationary(mc::Ctx& c, const RefModel& r, bool mult, const std::vector<int>& a, bool moves, RUN run) {
   std::vector<std::vector<int> > xs; std::vector<int> x(r.L.size(), 0); do xs.push_back(x); while(r.next(x)); const size_t N = xs.size(); std::vector<double> pi(N); double z = 0; for(size_t i = 0; i < N; ++i) { double e = r.eval(xs[i], mult); z += pi[i] = mult ? e : std::exp(-e); } std::vector<std::vector<double> > P(N, std::vector<double>(N, 0));
   for(size_t i = 0; i < N; ++i) { struct F { RUN& run; const std::vector<int>& from; std::vector<int> to; std::map<std::vector<int>, double> p; mc::Ctx& c; void operator()() { to = run(from); } void leaf(double q) { p[to] += q; c.step(); } } f = {run, xs[i], {}, {}, c}; std::map<std::vector<int>, double> out; struct H { F& f; void operator()() { f(); } void leaf(double q) { f.leaf(q); } }; everySequence(a, H{f}); for(size_t j = 0; j < N; ++j) P[i][j] = f.p.count(xs[j]) ? f.p[xs[j]] : 0; double s = 0; for(auto& kv : f.p) s += kv.second; c.near(s, 1, 1e-9, "probabilities of the steps from a state"); }
   for(size_t i = 0; i < N; ++i) for(size_t j = 0; j < N; ++j) { c.near(pi[i] / z * P[i][j], pi[j] / z * P[j][i], 1e-9, "balance between two states"); int d = 0; for(size_t k = 0; k < r.L.size(); ++k) d += xs[i][k] != xs[j][k]; if(moves && d == 1) c.check(P[i][j] > 0, "every neighbouring state can be reached"); } }
template<class GM, class ACC> static void gibbsKernel(mc::Ctx& c, int n, int parts, int modulus, const std::vector<int>& labels) {
   const bool mult = IsMult<typename GM::OperatorType>::value; RefModel r; for(int i = 0; i < n; ++i) r.L.push_back(c.pick(labels)); RefFactor f; for(int i = 0; i < n; ++i) f.v.push_back(i); f.t.resize(r.tableSize(f.v)); for(size_t k = 0; k < f.t.size(); ++k) { int e = f.t.size() > 8 ? (int)(k * k + k / 2) % (parts < 4 ? 2 : 3) : c.choose(parts < 4 ? 2 : 3); f.t[k] = mult ? 1 << e : e * std::log(2.0); } r.f.push_back(f); if(c.flip()) { RefFactor u; u.v = {n - 1}; u.t.resize(r.L[n - 1]); for(size_t k = 0; k < u.t.size(); ++k) u.t[k] = mult ? 1 : 0; r.f.push_back(u); } GM gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str());
   typedef opengm::Gibbs<GM, ACC> G; typename G::Parameter p(1, 0); p.useTemp_ = c.flip(); p.p_ = 1;   /* one period: the first step of a cycle has the highest temperature, one */ auto run = [&](const std::vector<int>& from) { p.startPoint_.assign(from.begin(), from.end()); G g(gm, p); g.infer(); return markov(g, n); }; stationary(c, r, mult, grid(parts, modulus), true, run); c.outcome(r.hash()); }
MC_SCENARIO("gibbs/balance-binary") { gibbsKernel<GP, Max>(c, 2, 4, 2, {2}); }
MC_SCENARIO("gibbs/balance-sum") { gibbsKernel<GA, Min>(c, 2, 4, 2, {2}); }
MC_SCENARIO("gibbs/balance-mixed") { gibbsKernel<GP, Max>(c, 2, c.tier(2, 4), 6, {2, 3}); }
// Swendsen-Wang: visits, best states, marginals
template<class GM, class ACC> struct SwRun {
   typedef opengm::SwendsenWang<GM, ACC> S; typedef opengm::SwendsenWangMarginalVisitor<S> MV; static constexpr bool mult = IsMult<typename GM::OperatorType>::value;
   mc::Ctx& c; const RefModel& r; MV mv; std::vector<std::vector<int> > sampled; std::vector<int> last; double top; size_t visits, accepted, burn;
   SwRun(mc::Ctx& cc, const GM& gm, const RefModel& rr, size_t b) : c(cc), r(rr), mv(gm), top(0), visits(0), accepted(0), burn(b) {}
   void start(S& s) { last = markov(s, r.L.size()); top = r.eval(last, mult); consistent<ACC>(c, s, r, mult); c.check(best(s, r.L.size()) == last, "best state before the first step"); }
   void operator()(const S& s, size_t iteration, size_t size, bool acc, bool burning) { std::vector<int> now = markov(s, r.L.size()); c.eq(iteration, visits, "number of the step"); c.eq(burning, visits < burn, "burning in"); ++visits; size_t changed = 0; std::set<int> to; for(size_t i = 0; i < now.size(); ++i) { c.check(now[i] >= 0 && now[i] < r.L[i], "label in range"); if(now[i] != last[i]) { ++changed; to.insert(now[i]); } } c.check(to.size() <= 1 && (changed == 0 || changed == size), "a step relabels one cluster"); c.check(acc || !changed, "a rejected step moves nothing"); if(!burning) { double v = r.eval(now, mult); if(acc && better<ACC>(v, top)) top = v; sampled.push_back(now); accepted += acc; } consistent<ACC>(c, s, r, mult); c.near((double)s.currentBestValue(), top, EPS, "best value so far"); mv(s, iteration, size, acc, burning); last = now; }
};
template<class GM, class ACC> static void wang(mc::Ctx& c, int n, int steps) {
   typedef SwRun<GM, ACC> R; typedef typename R::S S; RefModel r; GM gm; small(c, gm, r, n, R::mult); typename S::Parameter p(steps, 0, 1e-6); p.numberOfBurnInSteps_ = n < 3 ? c.choose(2) : 0; if(steps > 1 && p.numberOfBurnInSteps_) p.maxNumberOfSamplingSteps_ -= 1; const bool start = c.flip(); if(start) p.initialState_.assign(n, 1); c.state(mc::mix(r.hash(), start)); c.step(); MC_TRACE(c, r.str()); S s(gm, p); R v(c, gm, r, p.numberOfBurnInSteps_); v.start(s); c.check(v.last == std::vector<int>(n, start), "initial state"); for(int i = 0; i < n; ++i) v.mv.addMarginal(i); if(n > 1) { size_t q[] = {0, (size_t)n - 1}; v.mv.addMarginal(q, q + 2); }
   { Source src(c, n == 2 && r.L[0] == 2 ? ENDS2 : ENDS3); s.infer(v); } c.eq(v.visits, p.maxNumberOfSamplingSteps_ + p.numberOfBurnInSteps_, "number of steps"); std::vector<typename GM::LabelType> a; s.arg(a); c.check(toInt(a) == best(s, n), "the labeling returned is the best state"); c.near((double)s.value(), r.eval(toInt(a), R::mult), EPS, "value of the labeling returned"); c.near((double)s.value(), v.top, EPS, "the labeling returned is the best one sampled");
   c.eq(v.mv.numberOfSamples(), v.sampled.size(), "number of samples"); c.eq(v.mv.numberOfAcceptedSamples(), v.accepted, "accepted samples"); c.eq(v.mv.numberOfRejectedSamples(), v.sampled.size() - v.accepted, "rejected samples");
   for(size_t m = 0; m < v.mv.numberOfMarginals(); ++m) { const auto& f = v.mv.marginal(m); std::vector<int> want(f.size(), 0); for(auto& x : v.sampled) { size_t k = 0, st = 1; for(size_t d = 0; d < (size_t)f.numberOfVariables(); ++d) { k += st * x[f.variableIndex(d)]; st *= r.L[f.variableIndex(d)]; } ++want[k]; } for(size_t k = 0; k < want.size(); ++k) { std::vector<size_t> co; size_t q = k; for(size_t d = 0; d < (size_t)f.numberOfVariables(); ++d) { co.push_back(q % r.L[f.variableIndex(d)]); q /= r.L[f.variableIndex(d)]; } c.near((double)f(co.begin()), want[k], 0, "marginal"); } }
   s.reset(); c.check(markov(s, n) == std::vector<int>(n, start) && best(s, n) == std::vector<int>(n, start), "state after a reset"); consistent<ACC>(c, s, r, R::mult); c.outcome(mc::mix(v.visits, mc::bitsOf(v.top))); }
MC_SCENARIO("wang/one-variable") { wang<GA, Min>(c, 1, c.tier(2, 3)); }
MC_SCENARIO("wang/two-variables") { wang<GA, Min>(c, 2, 2); }
MC_SCENARIO("wang/two-variables-product") { wang<GP, Max>(c, 2, 2); }
MC_SCENARIO("wang/three-variables") { wang<GP, Max>(c, 3, 1); }
// tables for which the probability of a link and all acceptance probabilities are multiples of 1/parts, so that the grid of answers gives exact probabilities
static bool whole(double x, int parts) { if(x >= 1) return true; double y = x * parts; return std::fabs(y - std::floor(y + 0.5)) < 1e-9; }
MC_SCENARIO("wang/balance") { const int parts = c.tier(4, 6); RefModel r; r.L = {2, 2}; RefFactor f; f.v = {0, 1}; f.t.resize(4); double z = 0; for(int k = 0; k < 4; ++k) z += f.t[k] = c.range(1, c.tier(4, 8)); const double q = (f.t[1] + f.t[2]) / z; if(!whole(q, parts)) c.prune(); for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) { double t = f.t[j] / f.t[i]; if(!whole(t, parts) || !whole(t * (1 - q), parts) || !whole(t / (1 - q), parts)) c.prune(); } r.f.push_back(f); GP gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str());
   typedef opengm::SwendsenWang<GP, Max> S; S::Parameter p(1, 0, 1e-6); auto run = [&](const std::vector<int>& from) { p.initialState_.assign(from.begin(), from.end()); S s(gm, p); s.infer(); return markov(s, 2); }; stationary(c, r, true, grid(parts, 2), true, run); c.outcome(r.hash()); }
// the generators themselves
MC_SCENARIO("random/integers") { const int lo = c.range(0, 3), hi = lo + c.range(1, 4); opengm::RandomUniform<size_t> u(lo, hi); opengm::RandomUniform<int> v(-lo, hi), w(lo, hi, 5); static const std::vector<int> all = {0, 1, 2, 3, 4, 5, 6, 7, RAND_MAX - 2, RAND_MAX - 1, RAND_MAX}; Source s(c, all); c.state(mc::mix(lo, hi)); c.step(); for(int i = 0; i < 2; ++i) { size_t x = u(); c.check((int)x >= lo && (int)x < hi, "integer in range"); int y = v(); c.check(y >= -lo && y < hi, "signed integer in range"); } int z = w(); c.check(z >= lo && z < hi, "integer in range"); c.outcome(z); }
MC_SCENARIO("random/integers-even") { const int n = c.range(1, 6); opengm::RandomUniform<size_t> u(2, 2 + n); std::map<size_t, int> seen; std::vector<int> a; for(int i = 0; i < 60; ++i) a.push_back(i); c.state(n); struct H { opengm::RandomUniform<size_t>& u; std::map<size_t, int>& s; size_t x; void operator()() { x = u(); } void leaf(double) { ++s[x]; } }; everySequence(a, H{u, seen, 0}); c.eq((int)seen.size(), n, "values"); for(auto& k : seen) { c.step(); c.eq(k.second, 60 / n, "evenly distributed"); } c.outcome(n); }
MC_SCENARIO("random/reals") { const double lo = c.range(-1, 1), hi = lo + c.range(1, 2); opengm::RandomUniform<double> u(lo, hi); opengm::RandomUniform<float> w((float)lo, (float)hi); static std::vector<int> a = {0, 1, RAND_MAX / 4, RAND_MAX / 2, RAND_MAX - 1}; c.state(mc::bitsOf(lo)); c.step(); Source s(c, a); double x = u(); c.check(x >= lo && x < hi, "real in range"); { opengm::RandomUniform<double> z(0, 1); z.setHigh(hi + 5); z.setLow(lo + 3); x = z(); c.check(x >= lo + 3 && x < hi + 5, "real in a range that was changed"); opengm::RandomUniform<double> y; y = u; x = y(); c.check(x >= lo && x < hi, "real in a range that was assigned"); } static const std::vector<int> two = {RAND_MAX / 3, RAND_MAX / 5}; answers = &two; float y = w(); c.check(y >= (float)lo && y < (float)hi, "float in range"); c.outcome(mc::bitsOf(x)); }
MC_SCENARIO("random/upper-end") { opengm::RandomUniform<double> u(0, 1); int k = c.choose(4); std::vector<int> a(1, RAND_MAX); c.state(k); c.step(); live = 0; std::vector<int> seq(k, 0); a.push_back(k ? RAND_MAX / 2 : 0); answers = &a; script.assign(k, 0); script.push_back(1); drawn = 0; double x = u(); answers = 0; c.check(x >= 0 && x < 1, "the upper end is not drawn"); c.outcome(k); }
MC_SCENARIO("random/weighted") { int n = c.range(1, 3); std::vector<double> w; double z = 0; for(int i = 0; i < n; ++i) { w.push_back(c.choose(4)); z += w.back(); } if(z == 0) c.prune(); opengm::RandomDiscreteWeighted<size_t, double> d(w.begin(), w.end()); std::map<size_t, double> seen; const int parts = 36 * 7; std::vector<int> a = grid(parts, 1); c.state(mc::mix(n, (long)(w[0] * 64 + (n > 1 ? w[1] * 8 : 0) + (n > 2 ? w[2] : 0)))); struct H { opengm::RandomDiscreteWeighted<size_t, double>& d; std::map<size_t, double>& s; size_t x; void operator()() { x = d(); } void leaf(double p) { s[x] += p; } }; everySequence(a, H{d, seen, 0}); for(int i = 0; i < n; ++i) { c.step(); c.near(seen.count(i) ? seen[i] : 0, w[i] / z, 1.0 / parts + 1e-9, "probability of a value"); } c.eq((int)seen.size() <= n, true, "values in range"); c.outcome(n); }
