// Stateless exhaustive explorer for the real OpenGM code (header only, no dependency on OpenGM).
//
// A harness registers scenarios.  A scenario body is a deterministic program that obtains every bit
// of nondeterminism (input values, operation choices, environment answers) from Ctx::choose(n).
// The explorer runs the body once for every reachable sequence of answers (depth first), i.e. it
// enumerates the scenario's whole bounded behaviour space.  A path is identified by its answers, so
// every violation is a replayable list of integers.
//
// Work is shared by forked workers; the current path is kept in shared memory, so that a crash or a
// hang of the code under test is attributed to the path that produced it.
#ifndef MC_HXX
#define MC_HXX
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc {

typedef uint64_t u64;

struct Violation { std::string msg; };   // thrown by Ctx::fail
struct Pruned {};                        // path outside the scenario's space
struct Split {};                         // internal: stop at split depth

inline u64 mix(u64 h, u64 v) {
   h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
   h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
   return h;
}
inline u64 bitsOf(double d) { if(d == 0) d = 0; u64 u; std::memcpy(&u, &d, 8); return u; }

const int MAXCH = 4096;
const int MAXW = 64;

struct Slot {                  // one per worker, shared
   std::atomic<u64> execs, pruned, points, steps, started;   // started: monotonic count of path starts
   std::atomic<int> active;    // running a path
   int n; int ch[MAXCH];
   std::atomic<int> viol;      // violation recorded
   char msg[4000]; char sig[600];
   int vn; int vch[MAXCH]; int shard;
};
struct Shared {
   Slot slot[MAXW];
   std::atomic<u64> next;      // next shard
   std::atomic<int> stop;
   std::atomic<u64> nstates, stateFull, noutcomes;
   std::atomic<int> nknown;
   char known[64][700];
};
const u64 TAB = 1ull << 22;    // distinct-state table
struct Table { std::atomic<u64> a[TAB]; };

struct Ctx {
   std::vector<int> prefix;    // forced answers
   std::vector<int> ans;       // answers taken
   std::vector<int> arity;
   int splitDepth = -1;
   bool thorough = false;
   Slot* slot = 0; Shared* sh = 0; Table* states = 0; Table* outs = 0;
   std::ostringstream trace; bool tracing = false;
   std::vector<std::string>* knownList = 0;
   u64 nsteps = 0;

   // --- nondeterminism -------------------------------------------------------------------------
   int choose(int n) {
      if(n <= 0) throw Pruned();
      if(n == 1) return 0;
      size_t i = ans.size();
      if(splitDepth >= 0 && (int)i >= splitDepth) throw Split();
      int a = 0;
      if(i < prefix.size()) {
         a = prefix[i];
         if(a >= n) { fprintf(stderr, "mc: replay diverged at choice %zu: answer %d of %d\n", i, a, n); _exit(97); }
      }
      ans.push_back(a); arity.push_back(n);
      if(slot) { if((int)i < MAXCH) { slot->ch[i] = a; slot->n = (int)i + 1; } else { fprintf(stderr, "mc: path too long\n"); _exit(98); } }
      return a;
   }
   bool flip() { return choose(2) == 1; }
   int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
   template<class T, size_t N> T pick(const T (&a)[N]) { return a[choose((int)N)]; }
   template<class T> T pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
   int tier(int quick, int deep) const { return thorough ? deep : quick; }
   void prune() { throw Pruned(); }
   // --- bookkeeping ----------------------------------------------------------------------------
   void put(Table* t, std::atomic<u64>& cnt, u64 h) {
      if(!t) return;
      if(h == 0) h = 1;
      u64 i = h & (TAB - 1);
      for(int k = 0; k < 64; ++k, i = (i + 1) & (TAB - 1)) {
         u64 cur = t->a[i].load(std::memory_order_relaxed);
         if(cur == h) return;
         if(cur == 0) { u64 z = 0; if(t->a[i].compare_exchange_strong(z, h)) { cnt++; return; } if(z == h) return; }
      }
      sh->stateFull++;
   }
   void state(u64 h) { if(sh) put(states, sh->nstates, h); }        // distinct reference states visited
   void outcome(u64 h) { if(sh) put(outs, sh->noutcomes, h); }      // distinct observed outcomes
   void step(u64 k = 1) { nsteps += k; }                            // operations applied to / comparisons made on the implementation
   bool traceOn() const { return tracing; }
   // --- oracle ---------------------------------------------------------------------------------
   void fail(const std::string& m) { throw Violation{m}; }
   void check(bool c, const char* m) { ++nsteps; if(!c) fail(m); }
   // A recorded genuine defect: sig must be listed in the known-findings file, otherwise it is a violation.
   // Returns normally when listed (the caller should then skip what cannot be compared any more).
   void knownOrFail(const std::string& sig, const std::string& m) {
      if(knownList) for(size_t i = 0; i < knownList->size(); ++i) if((*knownList)[i] == sig) {
         if(sh) {
            for(int j = 0; j < sh->nknown.load() && j < 64; ++j) if(sig == sh->known[j]) return;
            int j = sh->nknown++; if(j < 64) { std::strncpy(sh->known[j], sig.c_str(), 690); }
         }
         return;
      }
      fail(m + " [sig " + sig + "]");
   }
   template<class A, class B> void eq(const A& a, const B& b, const char* m) {
      ++nsteps;
      if(!(a == b)) { std::ostringstream s; s.precision(17); s << m << ": got " << a << ", expected " << b; fail(s.str()); }
   }
   void near(double a, double b, double tol, const char* m) {
      ++nsteps;
      if(a == b) return;
      if(!(std::fabs(a - b) <= tol)) { std::ostringstream s; s.precision(17); s << m << ": got " << a << ", expected " << b; fail(s.str()); }
   }
};

#define MC_TRACE(c, expr) do { if((c).traceOn()) { (c).trace << expr << "\n"; } } while(0)

typedef std::function<void(Ctx&)> Body;
struct Scenario { std::string name; Body body; double hang; };
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
struct Reg { Reg(const char* n, Body b, double hang = 10) { scenarios().push_back(Scenario{n, b, hang}); } };
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO(NAME) \
   static void MC_CAT(mcbody_, __LINE__)(mc::Ctx& c); \
   static mc::Reg MC_CAT(mcreg_, __LINE__)(NAME, MC_CAT(mcbody_, __LINE__)); \
   static void MC_CAT(mcbody_, __LINE__)(mc::Ctx& c)

inline bool advance(std::vector<int>& ans, std::vector<int>& arity, size_t keep) {
   while(ans.size() > keep) {
      if(ans.back() + 1 < arity.back()) { ans.back()++; return true; }
      ans.pop_back(); arity.pop_back();
   }
   return false;
}

// run one path; returns "" or violation message
inline std::string runPath(const Scenario& s, Ctx& c, bool& pruned, bool& split) {
   pruned = split = false;
   try { s.body(c); }
   catch(Violation& v) { return v.msg.empty() ? "violation" : v.msg; }
   catch(Pruned&) { pruned = true; }
   catch(Split&) { split = true; }
   catch(std::exception& e) { return std::string("uncaught exception: ") + e.what(); }
   catch(...) { return "uncaught exception"; }
   return "";
}

inline std::string jesc(const std::string& s) {
   std::string o;
   for(unsigned char ch : s) {
      if(ch == '"' || ch == '\\') { o += '\\'; o += ch; }
      else if(ch == '\n') o += "\\n";
      else if(ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
      else o += ch;
   }
   return o;
}
inline double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + 1e-6 * t.tv_usec; }

struct Options { std::string replay, out, only; int jobs = 8; bool thorough = false; std::string known; double hangScale = 1; bool list = false; };

inline std::vector<std::string> readLines(const std::string& f) {
   std::vector<std::string> r; FILE* p = f.empty() ? 0 : fopen(f.c_str(), "r");
   if(!p) return r;
   char b[4096];
   while(fgets(b, sizeof b, p)) { std::string l(b); while(!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back(); if(!l.empty()) r.push_back(l); }
   fclose(p); return r;
}
inline void quiet() { int fd = open("/dev/null", O_WRONLY); if(fd >= 0) { dup2(fd, 1); if(!getenv("MC_STDERR")) dup2(fd, 2); close(fd); } }

// Replays one path in a child process: result 0 holds, 1 violated, 2 crashed (signal), 3 hang, 97.. machinery error
struct Replay { int kind; std::string msg, trace; int sig; };
// from: when >= 0, the path's first `from` answers name a shard and every path of that shard before the
// given one is run first in the same process (for violations that need state left behind by earlier paths)
inline Replay replay(const Scenario& s, const std::vector<int>& path, bool thorough, std::vector<std::string>* known, double limit, bool silent, int from = -1) {
   int p[2]; if(pipe(p)) _exit(96);
   fflush(stdout);
   pid_t pid = fork();
   if(pid == 0) {
      close(p[0]);
      if(silent) quiet();
      Ctx c; c.thorough = thorough; c.knownList = known;
      bool pr, sp; std::string m;
      if(from >= 0) {
         std::vector<int> a(path.begin(), path.begin() + from), ar;
         for(;;) {
            c.ans.clear(); c.arity.clear(); c.prefix = a; c.nsteps = 0; c.trace.str("");
            m = runPath(s, c, pr, sp);
            if(!m.empty() || c.ans == path) break;
            a = c.ans; ar = c.arity;
            if(!advance(a, ar, from)) break;
         }
      } else {
      c.prefix = path; c.tracing = true;
      m = runPath(s, c, pr, sp);
      }
      std::string t = std::string(m.empty() ? "0" : "1") + m + std::string(1, '\0') + c.trace.str();
      size_t off = 0; while(off < t.size()) { ssize_t k = write(p[1], t.data() + off, t.size() - off); if(k <= 0) break; off += k; }
      close(p[1]); _exit(0);
   }
   close(p[1]);
   std::string buf; double t0 = now(); bool hang = false;
   fcntl(p[0], F_SETFL, O_NONBLOCK);
   for(;;) {
      char b[4096]; ssize_t k = read(p[0], b, sizeof b);
      if(k > 0) { buf.append(b, k); continue; }
      if(k == 0) break;
      if(now() - t0 > limit) { hang = true; kill(pid, SIGKILL); break; }
      usleep(2000);
   }
   close(p[0]);
   int st; waitpid(pid, &st, 0);
   Replay r; r.sig = 0;
   if(hang) { r.kind = 3; r.msg = "does not terminate"; return r; }
   if(WIFSIGNALED(st)) { r.kind = 2; r.sig = WTERMSIG(st); r.msg = std::string("crashed: ") + strsignal(r.sig); return r; }
   if(buf.empty()) { r.kind = WEXITSTATUS(st) == 97 ? 97 : 2; r.msg = "process ended with status " + std::to_string(WEXITSTATUS(st)) + " while running this path"; return r; }
   size_t z = buf.find('\0');
   r.kind = buf[0] - '0'; r.msg = buf.substr(1, z == std::string::npos ? z : z - 1); r.trace = z == std::string::npos ? "" : buf.substr(z + 1);
   return r;
}

struct Result { std::string name; u64 execs = 0, pruned = 0, points = 0, steps = 0, states = 0, outcomes = 0, full = 0; double wall = 0; std::vector<int> vpath; int vfrom = -1; std::string vmsg, vtrace; int machinery = 0; std::vector<std::string> known; std::vector<std::string> samples; };

// cpu seconds a worker (a child of this process) used since start was first taken
inline double cpuOf(pid_t p, double& start) {
   char b[64], buf[1024]; snprintf(b, sizeof b, "/proc/%d/stat", (int)p); FILE* f = fopen(b, "r"); if(!f) return 1e9;
   size_t n = fread(buf, 1, sizeof buf - 1, f); fclose(f); buf[n] = 0; const char* q = strrchr(buf, ')'); if(!q) return 1e9;
   unsigned long ut = 0, stm = 0; if(sscanf(q + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &stm) != 2) return 1e9;
   double t = double(ut + stm) / sysconf(_SC_CLK_TCK); if(start < 0) start = t; return t - start;
}
inline Result exploreOnce(const Scenario& s, const Options& o, std::vector<std::string>& known) {
   Result res; res.name = s.name; double t0 = now();
   Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   Table* st = (Table*)mmap(0, sizeof(Table), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   Table* ot = (Table*)mmap(0, sizeof(Table), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   // shards: all prefixes of a depth chosen so that there are enough of them
   // (enumerated in a child as the body may touch code under test that crashes)
   std::vector<std::vector<int> > shards;
   double hang = s.hang * o.hangScale;
   {
      for(int depth = 1; depth <= 12; ++depth) {
         size_t cap = 1 << 16;
         int* area = (int*)mmap(0, sizeof(int) * (cap * 16 + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
         pid_t pid = fork();
         if(pid == 0) {
            quiet();
            alarm((unsigned)(hang * 4) + 1);
            Ctx c; c.thorough = o.thorough; c.knownList = &known; size_t n = 0; bool allEnded = true;
            std::vector<int> a, ar;
            for(;;) {
               c.ans.clear(); c.arity.clear(); c.prefix = a; c.splitDepth = depth; c.trace.str("");
               bool pr, sp; runPath(s, c, pr, sp);
               if(sp) allEnded = false;
               int* q = area + 1 + n * 16; q[0] = (int)c.ans.size(); for(size_t i = 0; i < c.ans.size(); ++i) q[1 + i] = c.ans[i];
               ++n; area[0] = (int)n;
               if(n >= 4000) break;
               a = c.ans; ar = c.arity;
               if(!advance(a, ar, 0)) break;
            }
            _exit(allEnded ? 1 : 2);
         }
         int stt; waitpid(pid, &stt, 0);
         bool ok = WIFEXITED(stt) && (WEXITSTATUS(stt) == 1 || WEXITSTATUS(stt) == 2) && area[0] < 4000;
         if(ok) {
            shards.clear();
            for(int i = 0; i < area[0]; ++i) { int* q = area + 1 + i * 16; shards.push_back(std::vector<int>(q + 1, q + 1 + q[0])); }
         }
         bool done = !ok || WEXITSTATUS(stt) == 1 || shards.size() >= 256;
         munmap(area, sizeof(int) * (cap * 16 + 1));
         if(done) break;
      }
      if(shards.empty()) shards.push_back(std::vector<int>());
   }
   int W = std::max(1, std::min(o.jobs, (int)shards.size())); if(W > MAXW) W = MAXW;
   std::vector<pid_t> pid(W); std::vector<u64> last(W, 0); std::vector<double> since(W, now()), cpu0(W, -1);
   for(int w = 0; w < W; ++w) {
      pid[w] = fork();
      if(pid[w] == 0) {
         quiet();
#if !defined(__SANITIZE_ADDRESS__)
         rlimit rl; rl.rlim_cur = rl.rlim_max = 3ull << 30; setrlimit(RLIMIT_AS, &rl);
#endif
         Slot& sl = sh->slot[w];
         Ctx c; c.thorough = o.thorough; c.slot = &sl; c.sh = sh; c.states = st; c.outs = ot; c.knownList = &known;
         for(;;) {
            u64 k = sh->next++;
            if(k >= shards.size()) break;
            std::vector<int> a = shards[k], ar; sl.shard = (int)k;
            for(;;) {
               if(sh->stop) _exit(0);
               c.ans.clear(); c.arity.clear(); c.prefix = a; c.nsteps = 0;
               sl.n = 0; sl.started++; sl.active = 1;
               bool pr, sp; std::string m = runPath(s, c, pr, sp);
               sl.active = 0;
               if(pr) sl.pruned++; else sl.execs++;
               sl.points += c.ans.size() - std::min(c.ans.size(), a.empty() ? 0 : a.size() - 1);
               sl.steps += c.nsteps;
               if(!m.empty()) {
                  std::strncpy(sl.msg, m.c_str(), sizeof(sl.msg) - 1); sl.vn = (int)c.ans.size();
                  for(size_t i = 0; i < c.ans.size() && i < (size_t)MAXCH; ++i) sl.vch[i] = c.ans[i];
                  sl.viol = 1; sh->stop = 1; _exit(0);
               }
               a = c.ans; ar = c.arity;
               if(!advance(a, ar, shards[k].size())) break;
            }
         }
         _exit(0);
      }
   }
   int alive = W; int crashW = -1; bool hangFlag = false;
   std::vector<bool> dead(W, false);
   while(alive > 0) {
      int stt; pid_t p = waitpid(-1, &stt, WNOHANG);
      if(p > 0) {
         for(int w = 0; w < W; ++w) if(pid[w] == p && !dead[w]) {
            dead[w] = true; --alive;
            bool clean = WIFEXITED(stt) && WEXITSTATUS(stt) == 0;
            if(!clean && crashW < 0 && !(WIFSIGNALED(stt) && WTERMSIG(stt) == SIGKILL && sh->stop)) { crashW = w; sh->stop = 1; }
         }
         continue;
      }
      double t = now();
      for(int w = 0; w < W; ++w) if(!dead[w]) {
         u64 k = sh->slot[w].started;
         if(k != last[w] || !sh->slot[w].active) { last[w] = k; since[w] = t; cpu0[w] = -1; }
         else if(t - since[w] > hang && (t - since[w] > 20 * hang || cpuOf(pid[w], cpu0[w]) > 0.6 * hang)) {
            if(sh->stop) { kill(pid[w], SIGKILL); }
            else { crashW = w; hangFlag = true; sh->stop = 1; kill(pid[w], SIGKILL); }
            since[w] = t;
         }
         else if(!sh->stop && t - since[w] > 0.05 && cpu0[w] < 0) cpuOf(pid[w], cpu0[w]);
         else if(sh->stop && t - since[w] > 3) kill(pid[w], SIGKILL);
      }
      usleep(3000);
   }
   struct Cand { std::vector<int> first; std::string second; int shard; };
   std::vector<Cand> cand;
   for(int w = 0; w < W; ++w) {
      Slot& sl = sh->slot[w];
      res.execs += sl.execs; res.pruned += sl.pruned; res.points += sl.points; res.steps += sl.steps;
      if(sl.viol) cand.push_back(Cand{std::vector<int>(sl.vch, sl.vch + sl.vn), std::string(sl.msg), sl.shard});
   }
   if(crashW >= 0) { Slot& sl = sh->slot[crashW]; cand.push_back(Cand{std::vector<int>(sl.ch, sl.ch + sl.n), std::string(hangFlag ? "does not terminate" : "crash"), sl.shard}); }
   res.states = sh->nstates; res.outcomes = sh->noutcomes; res.full = sh->stateFull;
   for(int j = 0; j < sh->nknown.load() && j < 64; ++j) res.known.push_back(sh->known[j]);
   // replay before report: twice, alone, with a longer limit
   for(size_t i = 0; i < cand.size() && res.vmsg.empty(); ++i) {
      int from = -1;
      Replay r = replay(s, cand[i].first, o.thorough, &known, hang * 4, true);
      if(r.kind == 0) { // needs what earlier paths of its shard left behind
         from = (int)shards[cand[i].shard].size();
         if(from <= (int)cand[i].first.size()) r = replay(s, cand[i].first, o.thorough, &known, hang * 20 + 100, true, from);
      }
      if(r.kind == 0 || r.kind >= 90) { // did not reproduce: machinery problem, never a verdict
         fprintf(stderr, "mc: %s: '%s' did not reproduce on replay (kind %d)\n", s.name.c_str(), cand[i].second.c_str(), r.kind); res.machinery = 1; continue;
      }
      Replay r2 = r.kind == 3 ? r : replay(s, cand[i].first, o.thorough, &known, from < 0 ? hang * 4 : hang * 20 + 100, true, from);
      if(r2.kind != r.kind || (r.kind == 1 && r2.msg != r.msg)) { fprintf(stderr, "mc: %s: replays disagree: %s / %s\n", s.name.c_str(), r.msg.c_str(), r2.msg.c_str()); }
      if(r2.kind == 0) { res.machinery = 1; continue; }
      res.vpath = cand[i].first; res.vfrom = from; res.vmsg = r.msg.empty() ? cand[i].second : r.msg; res.vtrace = r.trace;
   }
   // samples: the first and a middle shard's first path, written out
   if(res.vmsg.empty() && !res.machinery) {
      size_t idx[2] = {0, shards.size() / 2};
      for(int i = 0; i < 2; ++i) {
         if(i == 1 && idx[1] == idx[0]) break;
         Replay r = replay(s, shards[idx[i]], o.thorough, &known, hang * 4, true);
         std::ostringstream t; t << s.name << " path-prefix"; for(int x : shards[idx[i]]) t << " " << x;
         if(!r.trace.empty()) t << ": " << r.trace.substr(0, 400);
         res.samples.push_back(t.str());
      }
   }
   munmap(sh, sizeof(Shared)); munmap(st, sizeof(Table)); munmap(ot, sizeof(Table));
   res.wall = now() - t0;
   return res;
}
// a finding that does not reproduce when replayed alone (a stalled machine) is never reported: the scenario is explored again with longer limits
inline Result explore(const Scenario& s, const Options& o, std::vector<std::string>& known) {
   Result r = exploreOnce(s, o, known);
   if(r.machinery) { Options q = o; q.hangScale *= 4; r = exploreOnce(s, q, known); }
   return r;
}

inline int run(int argc, char** argv) {
   Options o;
   for(int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      if(a == "--replay" && i + 1 < argc) o.replay = argv[++i];
      else if(a == "--out" && i + 1 < argc) o.out = argv[++i];
      else if(a == "--only" && i + 1 < argc) o.only = argv[++i];
      else if(a == "--jobs" && i + 1 < argc) o.jobs = atoi(argv[++i]);
      else if(a == "--known" && i + 1 < argc) o.known = argv[++i];
      else if(a == "--thorough") o.thorough = true;
      else if(a == "--hang-scale" && i + 1 < argc) o.hangScale = atof(argv[++i]);
      else if(a == "--list") o.list = true;
   }
   std::vector<std::string> known = readLines(o.known);
   if(o.list) { for(auto& s : scenarios()) printf("%s\n", s.name.c_str()); return 0; }
   if(!o.replay.empty()) {      // file: scenario name, tier, then answers
      std::vector<std::string> l = readLines(o.replay);
      for(auto& s : scenarios()) if(l.size() >= 3 && s.name == l[0]) {
         std::vector<int> p; std::istringstream is(l[2]); int x; while(is >> x) p.push_back(x);
         int from = l.size() > 3 ? atoi(l[3].c_str()) : -1;
         Replay r = replay(s, p, l[1] == "thorough", &known, from < 0 ? s.hang * 4 : s.hang * 20 + 100, false, from);
         printf("scenario %s: %s\n%s\n", s.name.c_str(), r.kind == 0 ? "holds" : r.msg.c_str(), r.trace.c_str());
         return r.kind == 0 ? 0 : r.kind >= 90 ? 2 : 1;
      }
      fprintf(stderr, "no such scenario\n"); return 2;
   }
   std::ostringstream js; js << "["; int rc = 0; bool first = true; double t00 = now();
   for(auto& s : scenarios()) {
      if(!o.only.empty() && s.name.find(o.only) == std::string::npos) continue;
      if(rc == 1 && now() - t00 > 60) break;     // already decided: do not spend more time
      Result r = explore(s, o, known);
      fprintf(stderr, "%-40s paths %9llu pruned %7llu points %10llu steps %11llu states %8llu outcomes %8llu %6.1fs %s\n", s.name.c_str(), (unsigned long long)r.execs, (unsigned long long)r.pruned, (unsigned long long)r.points, (unsigned long long)r.steps, (unsigned long long)r.states, (unsigned long long)r.outcomes, r.wall, r.vmsg.empty() ? "" : "VIOLATED");
      if(!first) js << ","; first = false;
      js << "{\"scenario\":\"" << jesc(s.name) << "\",\"paths\":" << r.execs << ",\"pruned\":" << r.pruned << ",\"points\":" << r.points << ",\"steps\":" << r.steps << ",\"states\":" << r.states << ",\"outcomes\":" << r.outcomes << ",\"saturated\":" << r.full << ",\"wall\":" << r.wall << ",\"machinery\":" << r.machinery << ",\"known\":[";
      for(size_t i = 0; i < r.known.size(); ++i) js << (i ? "," : "") << "\"" << jesc(r.known[i]) << "\"";
      js << "],\"samples\":[";
      for(size_t i = 0; i < r.samples.size(); ++i) js << (i ? "," : "") << "\"" << jesc(r.samples[i]) << "\"";
      js << "],\"violation\":";
      if(r.vmsg.empty()) js << "null";
      else {
         js << "{\"msg\":\"" << jesc(r.vmsg) << "\",\"trace\":\"" << jesc(r.vtrace) << "\",\"path\":[";
         for(size_t i = 0; i < r.vpath.size(); ++i) js << (i ? "," : "") << r.vpath[i];
         js << "],\"from\":" << r.vfrom << "}"; rc = 1;
         fprintf(stderr, "  %s\n%s\n", r.vmsg.c_str(), r.vtrace.c_str());
      }
      js << "}";
      if(r.machinery && rc == 0) rc = 2;
   }
   js << "]\n";
   if(!o.out.empty()) { FILE* f = fopen(o.out.c_str(), "w"); if(f) { fputs(js.str().c_str(), f); fclose(f); } }
   return rc;
}
} // namespace mc
#endif
