// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c01_construct.hxx"
typedef opengm::DiscreteSpace<unsigned int, unsigned char> Sp;
typedef opengm::ExplicitFunction<float, unsigned int, unsigned char> E; typedef opengm::PottsFunction<float, unsigned int, unsigned char> P; typedef opengm::SparseFunction<float, unsigned int, unsigned char> S;
typedef opengm::GraphicalModel<float, opengm::Multiplier, OPENGM_TYPELIST_3(E, P, S), Sp> A1;
typedef opengm::GraphicalModel<float, opengm::Multiplier, OPENGM_TYPELIST_3(P, S, E), Sp> A2;
MC_SCENARIO("construct/product/narrow_types") { scenario<A1, A2>(c, true, c.tier(2, 3), 4); }
