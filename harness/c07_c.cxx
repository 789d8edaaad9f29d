// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS HDF5
// C07 (3): every point at which the writing of a model file can stop, every length to which a file can be cut, and every system call of saving and loading that can fail.
#include "c07_models.hxx"
#include <sys/syscall.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <cerrno>
typedef Types<double, size_t, size_t> TD; namespace oh = opengm::hdf5;
// what the library writes: the calls below stand in for the C library's while a recorder or a fault is active
struct Write { long at; std::vector<char> bytes; long cut; };
static bool recording = false; static std::vector<Write> writes; static int mode = 0; static long countdown = -1, calls = 0;
enum { NONE, FAIL_ONCE, FAIL_FROM, SHORT, INTERRUPTED };
// whether this call is the one that the fault concerns
static bool fault(bool active) { if(!active) return false; const long k = calls++; return mode != NONE && (mode == FAIL_FROM ? k >= countdown : k == countdown); }
static bool writing = false, reading = false;
extern "C" ssize_t pwrite(int fd, const void* p, size_t n, off_t at) { if(fault(writing)) { if(mode == SHORT && n > 1) n /= 2; else if(mode == INTERRUPTED) { errno = EINTR; return -1; } else if(mode != SHORT) { errno = ENOSPC; return -1; } } ssize_t r = syscall(SYS_pwrite64, fd, p, n, at); if(recording && r > 0) { Write w; w.at = at; w.bytes.assign((const char*)p, (const char*)p + r); w.cut = -1; writes.push_back(w); } return r; }
extern "C" int ftruncate(int fd, off_t n) { if(fault(writing) && (mode == FAIL_ONCE || mode == FAIL_FROM)) { errno = ENOSPC; return -1; } int r = syscall(SYS_ftruncate, fd, n); if(recording && !r) { Write w; w.at = -1; w.cut = n; writes.push_back(w); } return r; }
extern "C" ssize_t pread(int fd, void* p, size_t n, off_t at) { if(fault(reading)) { if(mode == SHORT && n > 1) n /= 2; else if(mode == INTERRUPTED) { errno = EINTR; return -1; } else if(mode != SHORT) { errno = EIO; return -1; } } return syscall(SYS_pread64, fd, p, n, at); }
static std::string contents(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void put(const std::string& f, const std::string& s) { std::ofstream o(f.c_str(), std::ios::binary | std::ios::trunc); o.write(s.data(), s.size()); }
static RefModel example(int k, TD::Gm& gm) { RefModel r; typedef Build<TD::Gm> B; switch(k) {
   case 0: r.L = {2}; gm = B::space(r); break;
   case 1: r.L = {2, 3}; gm = B::space(r); B::add(gm, r, {0, 1}, 0, 1, 1); B::add(gm, r, {1}, 0, 2, 2); break;
   case 2: r.L = {2, 2, 3}; gm = B::space(r); B::add(gm, r, {0, 1}, 1, 1, 1); B::add(gm, r, {1, 2}, 2, 2, 1); B::add(gm, r, {2}, 6, 2, 1); B::add(gm, r, {}, 0, 2, 1); break;
   default: r.L = {2, 2, 2, 2, 2, 3}; gm = B::space(r); B::add(gm, r, {0, 1, 2, 3, 4, 5}, 0, 1, 1); for(int i = 0; i < 5; ++i) { B::add(gm, r, {i, i + 1}, 1 + i % 2 * 2, i, 1); B::add(gm, r, {i, i + 1}, 5, i, 1); } B::add(gm, r, {1, 3, 5}, 4, 1, 1); B::add(gm, r, {1, 3, 5}, 2, 1, 1); break; } return r; }
// loading gives the model or an error, and leaves nothing open either way
static bool loads(mc::Ctx& c, const std::string& f, const RefModel& r) { const long before = openHandles(); bool ok = true; { TD::Gm q; ok = !fails([&] { oh::load(q, f, "gm"); }); c.eq(openHandles(), before, "handles left open by loading"); if(ok) same(c, q, r); } return ok; }
// saving, with the sequence of writes recorded
static std::vector<Write> recorded(const TD::Gm& gm, const std::string& f) { writes.clear(); recording = true; try { oh::save(gm, f, "gm"); } catch(...) { recording = false; throw; } recording = false; return writes; }
static void apply(std::string& s, const Write& w, long n) { if(w.at < 0) { s.resize(w.cut); return; } if((long)s.size() < w.at + n) s.resize(w.at + n); std::copy(w.bytes.begin(), w.bytes.begin() + n, s.begin() + w.at); }
// the process stops after any number of bytes have been written
static void stops(mc::Ctx& c, int k, int step) { Quiet quiet; TD::Gm gm; RefModel r = example(k, gm); const std::string f = scratchFile("stop"); std::vector<Write> w = recorded(gm, f); std::string whole = contents(f), s; size_t total = 0; for(const Write& x : w) apply(s, x, x.bytes.size()); c.check(s == whole, "the recorded writes are the file"); 
   int i = c.choose(w.size() + 1); s.clear(); for(int j = 0; j < i; ++j) apply(s, w[j], w[j].bytes.size()); if(i < (int)w.size() && w[i].at >= 0) { long n = c.choose((w[i].bytes.size() + step - 1) / step) * step; apply(s, w[i], n); total = n; } 
   c.state(mc::mix(mc::mix(k, i), total)); c.step(); MC_TRACE(c, "writes " << i << " of " << w.size() << ", bytes of the next " << total); put(f, s); bool ok = loads(c, f, r); if(i == (int)w.size()) c.check(ok, "the complete file loads"); oh::save(gm, f, "gm"); c.check(loads(c, f, r), "saving again repairs the file"); std::remove(f.c_str()); c.outcome(ok); }
MC_SCENARIO("stops/no-factors") { stops(c, 0, c.thorough ? 1 : 4); }
MC_SCENARIO("stops/one-type") { stops(c, 1, c.thorough ? 1 : 8); }
MC_SCENARIO("stops/four-types") { stops(c, 2, c.thorough ? 1 : 16); }
MC_SCENARIO("stops/large") { stops(c, 3, c.thorough ? 1 : 32); }
// the file is cut to any length
static void cuts(mc::Ctx& c, int k, int step) { Quiet quiet; TD::Gm gm; RefModel r = example(k, gm); const std::string f = scratchFile("cut"); oh::save(gm, f, "gm"); std::string s = contents(f); long n = c.choose(s.size() / step + 1) * step; c.state(mc::mix(k, n)); c.step(); MC_TRACE(c, "length " << n << " of " << s.size()); put(f, s.substr(0, n)); bool ok = loads(c, f, r); if(n == (long)s.size()) c.check(ok, "the complete file loads"); std::remove(f.c_str()); c.outcome(ok); }
MC_SCENARIO("cuts/no-factors") { cuts(c, 0, c.thorough ? 1 : 2); }
MC_SCENARIO("cuts/one-type") { cuts(c, 1, c.thorough ? 1 : 2); }
MC_SCENARIO("cuts/four-types") { cuts(c, 2, c.thorough ? 1 : 4); }
MC_SCENARIO("cuts/large") { cuts(c, 3, c.thorough ? 1 : 8); }
// any call fails, once or from then on, is interrupted or does part of its work
static void faults(mc::Ctx& c, int k) { Quiet quiet; TD::Gm gm; RefModel r = example(k, gm); const std::string f = scratchFile("fault"); const long before = openHandles(); const bool load = c.flip(); if(load) oh::save(gm, f, "gm"); else if(c.flip()) { TD::Gm o; RefModel q = example(3 - k, o); oh::save(o, f, "gm"); }
   mode = NONE; calls = 0; (load ? reading : writing) = true; TD::Gm q; if(load) oh::load(q, f, "gm"); else oh::save(gm, f, "gm"); const long n = calls; reading = writing = false; 
   int m = c.choose(4) + 1, at = c.choose(n); c.state(mc::mix(mc::mix(k, load), mc::mix(m, at))); c.step(); MC_TRACE(c, (load ? "reading" : "writing") << " call " << at << " of " << n << " mode " << m); calls = 0; countdown = at; mode = m; (load ? reading : writing) = true; bool bad; TD::Gm z; bad = fails([&] { if(load) oh::load(z, f, "gm"); else oh::save(gm, f, "gm"); }); reading = writing = false; mode = NONE; 
   if(load) c.eq(openHandles(), before, "handles left open after a failed call"); if(m == SHORT || m == INTERRUPTED) c.check(!bad, "interrupted and partial calls are continued"); if(!bad) { if(load) same(c, z, r); else c.check(loads(c, f, r), "a file saved without an error loads"); } else if(!load) loads(c, f, r); 
   const std::string g = scratchFile("next"); oh::save(gm, g, "gm"); c.check(loads(c, g, r), "saving elsewhere after a failure"); std::remove(f.c_str()); std::remove(g.c_str()); c.outcome(bad); }
MC_SCENARIO("faults/no-factors") { faults(c, 0); }
MC_SCENARIO("faults/one-type") { faults(c, 1); }
MC_SCENARIO("faults/four-types") { faults(c, 2); }
MC_SCENARIO("faults/large") { faults(c, 3); }
