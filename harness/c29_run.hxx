// Calls a program's main function by another name.
#ifndef C29_RUN_HXX
#define C29_RUN_HXX
#include <string>
#include <vector>
typedef std::vector<std::string> Args;
struct Argv { std::vector<std::string> keep; std::vector<char*> p; Argv(const char* name, const Args& a) : keep(a) { keep.insert(keep.begin(), name); for(auto& x : keep) p.push_back(&x[0]); p.push_back(0); } int n() const { return (int)keep.size(); } operator char**() { return &p[0]; } operator const char**() { return (const char**)&p[0]; } };
int runOpengm2Uai(const Args&); int runUai2Opengm(const Args&); int runWudag(const Args&); int runPartition(const Args&); int runBrain(const Args&); int runMatchingN2N(const Args&); int runMatching(const Args&); int runMinSum(const Args&); int runMaxProd(const Args&);
#endif
