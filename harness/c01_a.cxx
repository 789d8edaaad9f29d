// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c01_construct.hxx"
typedef opengm::DiscreteSpace<size_t, size_t> Sp;
typedef opengm::ExplicitFunction<double> E; typedef opengm::PottsFunction<double> P; typedef opengm::SparseFunction<double, size_t, size_t> S;
typedef opengm::GraphicalModel<double, opengm::Adder, OPENGM_TYPELIST_3(E, P, S), Sp> A1;
typedef opengm::GraphicalModel<double, opengm::Adder, OPENGM_TYPELIST_3(P, S, E), Sp> A2;
MC_SCENARIO("construct/sum") { scenario<A1, A2>(c, false, c.tier(3, 4), 4); }
