#ifndef C12_MESSAGES_HXX
#define C12_MESSAGES_HXX
#include "models.hxx"
#include <opengm/operations/integrator.hxx>
#include <opengm/operations/logsumexp.hxx>
#include <opengm/utilities/metaprogramming.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>

template<class ACC> struct IsSum { static const bool value = false; }; template<> struct IsSum<opengm::Integrator> { static const bool value = true; };
template<class ACC> struct IsLse { static const bool value = false; }; template<> struct IsLse<opengm::Logsumexp> { static const bool value = true; };
template<class ACC> double acc(double a, double b) { if(IsSum<ACC>::value) return a + b; if(IsLse<ACC>::value) return std::log(std::exp(a) + std::exp(b)); return IsMax<ACC>::value ? std::max(a, b) : std::min(a, b); }

// brute force marginal of a set of variables (first variable fastest), normalised: products sum or accumulate to one, sums accumulate to zero
template<class ACC> std::vector<double> refMarginal(const RefModel& r, const std::vector<int>& v, bool mult) {
   std::vector<double> m(r.tableSize(v)); std::vector<bool> set(m.size(), false); std::vector<int> l(r.L.size(), 0);
   do { size_t k = r.index(v, l); double e = r.eval(l, mult); m[k] = set[k] ? acc<ACC>(m[k], e) : e; set[k] = true; } while(r.next(l));
   return m;
}
template<class ACC> void normalise(std::vector<double>& m, bool mult) { double a = m[0]; for(size_t i = 1; i < m.size(); ++i) a = acc<ACC>(a, m[i]); for(double& x : m) if(mult) x /= a; else x -= a; }

struct Schedule { int kind; double damping; int norm; std::vector<int> order; int steps; };   // kind 0 default, 1 parallel, 2 sequential, 3 acyclic declared, 4 user driven
template<class GM, class ACC, template<class, class, class> class RULES> void messages(mc::Ctx& c, const RefModel& r, const Schedule& s, bool labels) {
   const bool mult = IsMult<typename GM::OperatorType>::value;
   GM gm; build(gm, r); c.state(r.hash());
   MC_TRACE(c, r.str() << " schedule " << s.kind << " damping " << s.damping << " normalise " << s.norm << " order " << show(s.order));
   typedef RULES<GM, ACC, opengm::MessageBuffer<marray::Marray<double> > > R; typedef opengm::MessagePassing<GM, ACC, R, opengm::MaxDistance> BP;
   typename BP::Parameter p; p.maximumNumberOfSteps_ = s.steps; p.damping_ = s.damping; p.isAcyclic_ = s.kind == 0 ? opengm::Tribool::Maybe : s.kind == 3 ? opengm::Tribool::True : opengm::Tribool::False;
   p.inferSequential_ = s.kind == 2; p.useNormalization_ = s.norm == 0 ? opengm::Tribool::False : s.norm == 1 ? opengm::Tribool::True : opengm::Tribool::Maybe;
   for(int x : s.order) p.sortedNodeList_.push_back(x);
   BP bp(gm, p);
   if(s.kind == 4) for(int k = 0; k < s.steps; ++k) bp.propagate(s.damping);
   else c.eq((int)bp.infer(), (int)opengm::NORMAL, "inference succeeds");
   c.step();
   const double tol = s.damping == 0 ? 1e-8 : 1e-5;
   for(size_t v = 0; v < r.L.size(); ++v) {
      typename GM::IndependentFactorType out; c.eq((int)bp.marginal(v, out), (int)opengm::NORMAL, "marginal is available");
      c.eq((size_t)out.numberOfVariables(), (size_t)1, "marginal depends on one variable"); c.eq((size_t)out.variableIndex(0), v, "variable of the marginal"); c.eq((size_t)out.size(), (size_t)r.L[v], "size of the marginal");
      std::vector<double> e = refMarginal<ACC>(r, {(int)v}, mult), g(e.size()); for(size_t i = 0; i < g.size(); ++i) g[i] = out(i);
      normalise<ACC>(e, mult); if(s.norm != 1) normalise<ACC>(g, mult);
      for(size_t i = 0; i < g.size(); ++i) c.near(g[i], e[i], tol, "marginal of a variable");
   }
   for(size_t f = 0; f < r.f.size(); ++f) if(!r.f[f].v.empty()) {
      typename GM::IndependentFactorType out; c.eq((int)bp.factorMarginal(f, out), (int)opengm::NORMAL, "factor marginal is available");
      std::vector<double> e = refMarginal<ACC>(r, r.f[f].v, mult), g(e.size()); c.eq((size_t)out.size(), e.size(), "size of the factor marginal");
      for(size_t i = 0; i < g.size(); ++i) g[i] = out(i);
      normalise<ACC>(e, mult); if(s.norm != 1) normalise<ACC>(g, mult);
      for(size_t i = 0; i < g.size(); ++i) c.near(g[i], e[i], tol, "marginal of a factor");
   }
   if(labels) {
      std::vector<typename GM::LabelType> l; c.eq((int)bp.arg(l), (int)opengm::NORMAL, "labeling is available"); MC_TRACE(c, "returned " << show(l));
      c.check(validLabeling(r, l), "labeling is complete and in range");
      double best = r.best(mult, IsMax<ACC>::value);
      c.near(r.eval(toInt(l), mult), best, 1e-9 * (1 + std::fabs(best)), "value of the labeling is the optimum"); c.near((double)bp.value(), best, 1e-9 * (1 + std::fabs(best)), "reported value is the optimum");
      std::vector<typename GM::LabelType> m; c.eq((int)bp.modeFromMarginal(m), (int)opengm::NORMAL, "mode from marginals"); int n = 0; r.best(mult, IsMax<ACC>::value, &n);
      c.check(validLabeling(r, m), "mode is complete and in range"); if(n == 1 && s.damping == 0) c.near(r.eval(toInt(m), mult), best, 1e-9 * (1 + std::fabs(best)), "mode from marginals is the unique optimum");
      c.outcome(mc::mix(mc::bitsOf(best), n));
   }
}
inline Schedule anySchedule(mc::Ctx& c, int n, bool user) {
   Schedule s; s.kind = c.choose(user ? 5 : 4); s.norm = c.pick(std::vector<int>{1, 0, 2}); s.damping = (s.kind == 1 || s.kind == 2) && c.flip() ? 0.5 : 0; s.steps = s.damping ? 150 : 2 * n + 2;
   if(s.damping && s.norm != 1) c.prune(); if(!c.thorough && s.norm == 2 && s.kind) c.prune();
   if(s.kind == 2) { std::vector<int> rest; for(int i = 0; i < n; ++i) rest.push_back(i); if(c.thorough || n < 4) while(!rest.empty()) { int k = c.choose((int)rest.size()); s.order.push_back(rest[k]); rest.erase(rest.begin() + k); } }
   return s;
}
template<template<class, class, class> class RULES> void semiring(mc::Ctx& c, RefModel& r, const Schedule& s, int k) {
   typedef typename GmOf<double, opengm::Adder>::type GA; typedef typename GmOf<double, opengm::Multiplier>::type GX;
   if(k >= 2 && k < 5) makePositive(r);
   switch(k) {
   case 0: messages<GA, opengm::Minimizer, RULES>(c, r, s, true); break;
   case 1: messages<GA, opengm::Maximizer, RULES>(c, r, s, true); break;
   case 2: messages<GX, opengm::Maximizer, RULES>(c, r, s, true); break;
   case 3: messages<GX, opengm::Minimizer, RULES>(c, r, s, true); break;
   case 4: messages<GX, opengm::Integrator, RULES>(c, r, s, false); break;
   }
}
#endif
