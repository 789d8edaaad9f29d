// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c06_algebra.hxx"
#include "c06_accumulate.hxx"
typedef Alg<double, size_t, size_t> A;
MC_SCENARIO("accumulate") {
   int acc = c.choose(6); unsigned m = c.choose(16); int ft = c.choose(4), var = c.choose(4); bool inf = acc < 2 && ft == 0 && c.flip();
   switch(acc) { case 0: accumulations<A, Minimizer, true>(c, acc, m, ft, var, inf); break; case 1: accumulations<A, Maximizer, true>(c, acc, m, ft, var, inf); break; case 2: accumulations<A, Adder, false>(c, acc, m, ft, var, false); break; case 3: accumulations<A, Multiplier, false>(c, acc, m, ft, var, false); break; case 4: accumulations<A, Integrator, false>(c, acc, m, ft, var, false); break; case 5: accumulations<A, Logsumexp, false>(c, acc, m, ft, var, false); break; }
}
