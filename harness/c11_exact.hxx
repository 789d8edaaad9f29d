#ifndef C11_EXACT_HXX
#define C11_EXACT_HXX
#include "models.hxx"
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/astar.hxx>
#include <opengm/inference/dynamicprogramming.hxx>

// all values of a model, best first
inline std::vector<double> ranking(const RefModel& r, bool mult, bool maxi) {
   std::vector<double> e; std::vector<int> l(r.L.size(), 0); do e.push_back(r.eval(l, mult)); while(r.next(l));
   std::sort(e.begin(), e.end()); if(maxi) std::reverse(e.begin(), e.end()); return e;
}
template<class INF> void optimal(mc::Ctx& c, const RefModel& r, const INF& inf, bool mult, bool maxi, const char* who) {
   typedef typename INF::GraphicalModelType GM;
   std::vector<typename GM::LabelType> l;
   opengm::InferenceTermination t = inf.arg(l);
   MC_TRACE(c, who << " returned " << show(l));
   c.eq((int)t, (int)opengm::NORMAL, "arg reports success");
   c.check(validLabeling(r, l), "labeling is complete and in range");
   double best = r.best(mult, maxi);
   c.near(r.eval(toInt(l), mult), best, 1e-9 * (1 + std::fabs(best)), "value of the labeling is the optimum");
   c.near((double)inf.value(), best, 1e-9 * (1 + std::fabs(best)), "reported value is the optimum");
   c.outcome(mc::mix(mc::bitsOf(best), r.hash()));
}
template<class GM, class ACC> void bruteforce(mc::Ctx& c, const RefModel& r) {
   GM gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str());
   opengm::Bruteforce<GM, ACC> bf(gm); c.eq((int)bf.infer(), (int)opengm::NORMAL, "brute force succeeds");
   optimal(c, r, bf, IsMult<typename GM::OperatorType>::value, IsMax<ACC>::value, "brute force"); c.step();
}
template<class GM, class ACC> void astar(mc::Ctx& c, const RefModel& r, size_t heuristic, const std::vector<int>& order, const std::vector<int>& tree, int nbest) {
   const bool mult = IsMult<typename GM::OperatorType>::value, maxi = IsMax<ACC>::value;
   GM gm; build(gm, r); c.state(r.hash());
   MC_TRACE(c, r.str() << " heuristic " << heuristic << " order " << show(order) << " tree factors " << show(tree) << " labelings " << nbest);
   typedef opengm::AStar<GM, ACC> S; typename S::Parameter p;
   p.heuristic_ = heuristic; p.numberOfOpt_ = nbest; for(int x : order) p.nodeOrder_.push_back(x); for(int x : tree) p.addTreeFactorId(x);
   S s(gm, p); opengm::InferenceTermination t = s.infer(); c.step();
   std::vector<double> rank = ranking(r, mult, maxi);
   if((int)rank.size() >= nbest) c.eq((int)t, (int)opengm::NORMAL, "A* finds the requested number of labelings");
   optimal(c, r, s, mult, maxi, "A*");
   std::vector<std::vector<typename GM::LabelType> > all; s.args(all);
   c.eq(all.size(), std::min(rank.size(), (size_t)nbest), "number of labelings listed");
   std::set<std::vector<int> > seen;
   for(size_t k = 0; k < all.size(); ++k) {
      c.check(validLabeling(r, all[k]), "listed labeling is valid"); c.check(seen.insert(toInt(all[k])).second, "labelings listed are different");
      std::vector<typename GM::LabelType> one; c.eq((int)s.arg(one, k + 1), (int)opengm::NORMAL, "arg(k)"); c.check(one == all[k], "arg(k) is the k-th labeling listed");
      c.near(r.eval(toInt(all[k]), mult), rank[k], 1e-9 * (1 + std::fabs(rank[k])), "labelings are listed best first");
   }
   if(!all.empty()) c.near((double)s.bound(), rank[all.size() - 1], 1e-9 * (1 + std::fabs(rank[all.size() - 1])), "bound is the value of the last labeling found");
}
// a node order, all permutations; empty = default
inline std::vector<int> anyOrder(mc::Ctx& c, int n, bool dflt) {
   std::vector<int> o; if(dflt && c.flip()) return o;
   std::vector<int> rest; for(int i = 0; i < n; ++i) rest.push_back(i);
   while(!rest.empty()) { int k = c.choose((int)rest.size()); o.push_back(rest[k]); rest.erase(rest.begin() + k); }
   return o;
}
// a set of pairwise factors without cycles (duplicates included in the definition of a cycle), or the default (empty)
inline std::vector<int> anyTree(mc::Ctx& c, const RefModel& r) {
   std::vector<int> t; if(!c.flip()) return t;
   RefModel q; q.L = r.L;
   for(size_t i = 0; i < r.f.size(); ++i) if(r.f[i].v.size() == 2 && c.flip()) { q.f.push_back(r.f[i]); t.push_back((int)i); }
   if(t.empty() || !refAcyclic(q)) c.prune();
   return t;
}
template<class GM, class ACC> void dynamic(mc::Ctx& c, const RefModel& r, const std::vector<int>& roots) {
   const bool mult = IsMult<typename GM::OperatorType>::value, maxi = IsMax<ACC>::value;
   GM gm; build(gm, r); c.state(r.hash()); MC_TRACE(c, r.str() << " roots " << show(roots));
   typedef opengm::DynamicProgramming<GM, ACC> S; typename S::Parameter p; for(int x : roots) p.roots_.push_back(x);
   S s(gm, p); c.eq((int)s.infer(), (int)opengm::NORMAL, "dynamic programming succeeds"); c.step();
   optimal(c, r, s, mult, maxi, "dynamic programming");
   if(roots.size() == 1) {   // the information about the root: best value of its component for each of its labels, and the labels attaining it
      int R = roots[0]; std::vector<int> comp = refComponents(r); RefModel q; q.L = r.L; for(auto& f : r.f) if(!f.v.empty() && comp[f.v[0]] == comp[R]) q.f.push_back(f);
      std::vector<typename GM::ValueType> val; std::vector<std::vector<typename GM::LabelType> > sub; std::vector<typename GM::IndexType> nodes;
      s.getNodeInfo(R, val, sub, nodes);
      c.eq(val.size(), (size_t)r.L[R], "one value per label of the root");
      for(int l = 0; l < r.L[R]; ++l) {
         std::vector<int> lab(r.L.size(), 0); double best = 0; bool first = true;
         do { if(lab[R] != l) continue; double e = q.eval(lab, mult); if(first || (maxi ? e > best : e < best)) best = e; first = false; } while(r.next(lab));
         c.near((double)val[l], best, 1e-9 * (1 + std::fabs(best)), "value of a label of the root");
         std::vector<int> a(r.L.size(), 0); a[R] = l; c.eq(sub[l].size(), nodes.size(), "labels listed per label of the root");
         for(size_t k = 0; k < nodes.size(); ++k) { a[nodes[k]] = (int)sub[l][k]; c.check((int)sub[l][k] < r.L[nodes[k]], "label in range"); }
         c.near(q.eval(a, mult), best, 1e-9 * (1 + std::fabs(best)), "labels listed attain the value");
      }
   }
}
#endif
