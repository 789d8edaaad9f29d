// Arrays in HDF5 files against plain arrays.
#ifndef C09_HXX
#define C09_HXX
#include "c08_marray.hxx"
#include <unistd.h>
#include <cstdlib>
#include <opengm/datastructures/marray/marray_hdf5.hxx>
namespace mh = marray::hdf5;
// files and objects in files that are open
inline long openIdentifiers() { return (long)H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL); }
inline std::string scratchFile(const char* name) { const char* d = getenv("MC_TMP"); std::ostringstream o; o << (d ? d : "/tmp") << "/" << name << "-" << getpid() << ".h5"; return o.str(); }
// silences the library's own error report
struct Quiet { Quiet() { H5Eset_auto(H5E_DEFAULT, 0, 0); } };
template<class T> struct Values { static T at(size_t i) { static const T special[] = {std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), (T)0, (T)1}; return i % 3 == 2 ? special[(i / 3) % 5] : (T)(i * 37 % 101 + 1); } };
// plain array: elements with the first coordinate fastest
template<class T> struct Plain {
   Shape s; bool first; std::vector<T> x;
   size_t at(const Shape& k) const { size_t q = 0; for(size_t j = s.size(); j-- > 0;) q = q * s[j] + k[j]; return q; }
   Plain(const Shape& shape, bool f) : s(shape), first(f), x(volume(shape)) { for(size_t i = 0; i < x.size(); ++i) x[i] = Values<T>::at(i); }
   marray::Marray<T> array() const { marray::Marray<T> a(marray::SkipInitialization, s.begin(), s.end(), order(first)); Shape k(s.size(), 0); do a(k.begin()) = x[at(k)]; while(nextIn(s, k)); return a; }
   Plain block(const Shape& b, const Shape& n) const { Plain r(n, first); Shape k(n.size(), 0); do { Shape q(k); for(size_t j = 0; j < q.size(); ++j) q[j] += b[j]; r.x[r.at(k)] = x[at(q)]; } while(nextIn(n, k)); return r; }
   std::string str() const { std::ostringstream o; o << "("; for(size_t j : s) o << j << ","; o << ")" << (first ? "F" : "L") << ":"; for(T v : x) o << " " << (double)v; return o.str(); }
   uint64_t hash() const { uint64_t h = first; for(size_t j : s) h = mc::mix(h, j); return h; }
};
template<class T> void same(mc::Ctx& c, const marray::Marray<T>& a, const Plain<T>& r, bool checkOrder = true) {
   c.eq(a.dimension(), r.s.size(), "dimension of a loaded array"); for(size_t j = 0; j < r.s.size(); ++j) c.eq(a.shape(j), r.s[j], "shape of a loaded array"); c.eq(a.size(), r.x.size(), "size of a loaded array"); c.check(a.isSimple(), "a loaded array is simple");
   if(checkOrder) c.eq(a.coordinateOrder() == marray::FirstMajorOrder, r.first, "coordinate order of a loaded array"); Shape k(r.s.size(), 0); do { const T x = a(k.begin()), y = r.x[r.at(k)]; c.check(!std::memcmp(&x, &y, sizeof(T)), "element of a loaded array"); } while(nextIn(r.s, k));
}
inline Shape shapeFor(mc::Ctx& c, int maxDim, size_t maxVolume, int maxExtent) { int d = c.range(1, maxDim); Shape s; size_t v = 1; for(int i = 0; i < d; ++i) { size_t n = (size_t)c.range(1, maxExtent); if(v * n > maxVolume) c.prune(); v *= n; s.push_back(n); } return s; }
// whole arrays, views, vectors: save, load into an array that held something else, query the shape
template<class T> void whole(mc::Ctx& c) {
   Quiet quiet; const Shape s = shapeFor(c, c.tier(3, 5), c.tier(8, 16), c.tier(3, 4)); const bool first = c.flip(), group = c.flip(); Plain<T> r(s, first); c.state(r.hash()); c.step(); MC_TRACE(c, r.str()); const std::string f = scratchFile("whole"); const long before = openIdentifiers();
   const int how = c.choose(4), version = c.choose(2); const mh::HDF5Version v = version ? mh::LATEST_HDF5_VERSION : mh::DEFAULT_HDF5_VERSION;
   { hid_t file = mh::createFile(f, v), at = group ? mh::createGroup(file, "g") : file; marray::Marray<T> a = r.array();
     if(how == 0) mh::save(at, "x", a);
     else if(how == 1) { marray::View<T, true> w(a); mh::save(at, "x", w); }
     else if(how == 2) { Shape big(s), b(s.size(), 1); for(size_t& n : big) n += 2; marray::Marray<T> m(big.begin(), big.end(), (T)3, order(!first)); marray::View<T> w = m.view(b.begin(), s.begin(), order(first)); w = a; mh::save(at, "x", w); }
     else { if(s.size() != 1 || !first) { if(group) mh::closeGroup(at); mh::closeFile(file); c.prune(); } std::vector<T> w(r.x); mh::save(at, "x", w); r.first = marray::defaultOrder == marray::FirstMajorOrder; }
     mh::save(at, "y", std::vector<T>(2, (T)1)); if(group) mh::closeGroup(at); mh::closeFile(file); }
   c.eq(openIdentifiers(), before, "identifiers left open by saving");
   { hid_t file = mh::openFile(f, mh::READ_ONLY, v), at = group ? mh::openGroup(file, "g") : file; marray::Marray<T> out; const int into = c.choose(4); if(into == 1) { Shape t{2, 3}; out.resize(t.begin(), t.end(), (T)9); } else if(into == 2) { Shape t(s); out.resize(t.begin(), t.end(), (T)9); } else if(into == 3) out = marray::Marray<T>((T)4);
     mh::load(at, "x", out); same(c, out, r); marray::Vector<unsigned> sh; mh::loadShape(at, "x", sh); c.check(Shape(sh.begin(), sh.end()) == s, "stored shape"); std::vector<T> w(3); mh::loadVec(at, "x", w); c.eq(w.size(), r.x.size(), "loaded vector"); for(size_t i = 0; i < w.size(); ++i) { T x = out(i); c.check(!std::memcmp(&w[i], &x, sizeof(T)), "element of a loaded vector"); }
     bool thrown = false; try { mh::load(at, "z", out); } catch(std::runtime_error&) { thrown = true; } c.check(thrown, "a missing dataset is an error"); thrown = false; marray::Marray<unsigned short> bad; const bool mismatch = !std::is_same<T, unsigned short>::value; try { mh::load(at, "x", bad); } catch(std::runtime_error&) { thrown = true; } c.eq(thrown, mismatch, "another element type is an error"); if(group) mh::closeGroup(at); mh::closeFile(file); }
   c.eq(openIdentifiers(), before, "identifiers left open by loading"); std::remove(f.c_str()); c.outcome(r.hash());
}
// every block of a stored array is read and written exactly
template<class T> void slabs(mc::Ctx& c) {
   Quiet quiet; const Shape s = shapeFor(c, c.tier(2, 4), c.tier(6, 12), 3); const bool first = c.flip(); Plain<T> r(s, first); Shape b, n; for(size_t x : s) { b.push_back(c.choose((int)x)); n.push_back(1 + c.choose((int)(x - b.back()))); }
   const bool write = c.flip(), created = write && c.flip(); c.state(r.hash()); c.step(); const std::string f = scratchFile("slab"); const long before = openIdentifiers();
   { hid_t file = mh::createFile(f); if(created) { mh::create<T>(file, "x", s.begin(), s.end(), order(first)); for(T& x : r.x) x = 0; } else mh::save(file, "x", r.array()); MC_TRACE(c, r.str());
     if(write) { Plain<T> p(n, first); for(size_t i = 0; i < p.x.size(); ++i) p.x[i] = (T)(60 + i); Shape k(n.size(), 0); do { Shape q(k); for(size_t j = 0; j < q.size(); ++j) q[j] += b[j]; r.x[r.at(q)] = p.x[p.at(k)]; } while(nextIn(n, k)); mh::saveHyperslab(file, "x", b.begin(), b.end(), n.begin(), p.array()); MC_TRACE(c, p.str());
        bool thrown = false; Plain<T> o(n, !first); try { mh::saveHyperslab(file, "x", b.begin(), b.end(), n.begin(), o.array()); } catch(std::runtime_error&) { thrown = true; } c.check(thrown, "writing a block in another coordinate order is an error");
        thrown = false; Plain<unsigned short> u(n, first); const bool mismatch = !std::is_same<T, unsigned short>::value; if(mismatch) { try { mh::saveHyperslab(file, "x", b.begin(), b.end(), n.begin(), u.array()); } catch(std::runtime_error&) { thrown = true; } c.check(thrown, "writing a block of another element type is an error"); } }
     Shape far(b); far[0] = s[0]; bool thrown = false; marray::Marray<T> o; try { mh::loadHyperslab(file, "x", far.begin(), far.end(), n.begin(), o); } catch(std::runtime_error&) { thrown = true; } c.check(thrown, "reading a block outside the array is an error");
     { bool mis = false; marray::Marray<unsigned short> u; try { mh::loadHyperslab(file, "x", b.begin(), b.end(), n.begin(), u); } catch(std::runtime_error&) { mis = true; } c.eq(mis, !std::is_same<T, unsigned short>::value, "reading a block of another element type is an error"); }
     mh::closeFile(file); }
   c.eq(openIdentifiers(), before, "identifiers left open");
   { hid_t file = mh::openFile(f, c.flip() ? mh::READ_ONLY : mh::READ_WRITE); marray::Marray<T> a, h((T)3); mh::load(file, "x", a); same(c, a, r); mh::loadHyperslab(file, "x", b.begin(), b.end(), n.begin(), h); same(c, h, r.block(b, n)); mh::closeFile(file); }
   c.eq(openIdentifiers(), before, "identifiers left open"); std::remove(f.c_str()); c.outcome(mc::mix(r.hash(), mc::mix(b[0], n[0])));
}
#endif
