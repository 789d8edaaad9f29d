// C03: value, shape, size of every built-in function type for every labeling and several label iterators.
#include "functions.hxx"
#include <opengm/functions/unary_loss_function.hxx>
#include <opengm/utilities/accessor_iterator.hxx>
template<class F> static void values(Ctx& c, const F& f, const Tab& t, double tol) {
   c.eq((size_t)f.dimension(), t.sh.size(), "dimension"); c.eq((size_t)f.size(), t.v.size(), "size");
   for(size_t d = 0; d < t.sh.size(); ++d) c.eq((size_t)f.shape(d), t.sh[d], "shape");
   for(size_t k = 0; k < t.v.size(); ++k) {
      Co x = t.co(k); x.push_back(0); std::vector<unsigned char> u(x.begin(), x.end()); std::deque<int> q(x.begin(), x.end()); unsigned long long a[24]; std::copy(x.begin(), x.end(), a); opengm::FastSequence<size_t> s(x.size()); std::copy(x.begin(), x.end(), s.begin());
      c.near((double)f(x.begin()), t.v[k], tol, "value (vector iterator)"); bool wide = false; for(size_t y : x) wide = wide || y > 255; if(!wide) c.near((double)f(&u[0]), t.v[k], tol, "value (pointer to narrow labels)"); c.near((double)f(q.begin()), t.v[k], tol, "value (deque iterator)");
      c.near((double)f((const unsigned long long*)a), t.v[k], tol, "value (const pointer)"); c.near((double)f(s.begin()), t.v[k], tol, "value (sequence iterator)"); const std::vector<unsigned char>& cu = u; if(!wide) c.near((double)f(cu.begin()), t.v[k], tol, "value (const iterator)");
   }
}
template<class F> static void checks(Ctx& c, const F& f, const Tab& t, double tol) {
   values(c, f, t, tol); F g(f); values(c, g, t, tol); { F h(g); g = h; } values(c, g, t, tol); values(c, f, t, tol); c.state(t.hash());
}
template<class F> static void shapeRange(Ctx& c, const F& f, const Tab& t) { Co s; typename F::FunctionShapeIteratorType b = f.functionShapeBegin(), e = f.functionShapeEnd(); for(; b != e; ++b) s.push_back((size_t)*b); c.check(s == t.sh, "shape range"); }
template<class T, class I, class L> struct Run {
   typedef Fn<T, I, L> N;
   static void go(Ctx& c, int fam) {
      double tol = fam == 12 ? (sizeof(T) == 4 ? 1e-4 : 1e-12) : 0;
      auto b = [&](const auto& f, const Tab& t) { checks(c, f, t, tol); shapeRange(c, f, t); };
      switch(fam) {
         case 0: N::genExplicit(c, b, c.tier(4, 6)); break;
         case 1: N::genSparse(c, b, 2); break;
         case 2: N::genConstant(c, b); break;
         case 3: N::genPotts(c, b); break;
         case 4: N::genPottsN(c, b); break;
         case 5: N::genPottsG(c, b, c.tier(6, 7)); break;
         case 6: N::template genDiff<typename N::AD>(c, b, false, "absolute difference"); break;
         case 7: N::template genDiff<typename N::SD>(c, b, true, "squared difference"); break;
         case 8: N::template genTrunc<typename N::TAD>(c, b, false, "truncated absolute difference"); break;
         case 9: N::template genTrunc<typename N::TSD>(c, b, true, "truncated squared difference"); break;
         case 10: N::template genStatic<typename N::SSS>(c, b); break;
         case 11: N::template genStatic<typename N::SSH>(c, b); break;
         case 12: N::genFoE(c, b); break;
      }
   }
};
