// FLAGS: -O1 -D_GLIBCXX_ASSERTIONS
#include "c04_summaries.hxx"
#include "functions_ladder.hxx"
MC_SCENARIO("ladder/functions") { const int fam = c.choose(10); Tab t(ladderShape(c, 300, 10, c.tier(4000, 100000))); ladderFunction<double, size_t, size_t>(c, fam, t, [&](const auto& f, const Tab& t) { summaries<double>(c, f, t, fam == 4); }); }
MC_SCENARIO("ladder/narrow") { const int fam = c.choose(10); Tab t(ladderShape(c, 255, 8, c.tier(2000, 100000))); ladderFunction<float, unsigned, unsigned char>(c, fam, t, [&](const auto& f, const Tab& t) { summaries<float>(c, f, t, fam == 4); }); }
// one entry of a table of a special form changed: first, last, middle
MC_SCENARIO("ladder/odd entry") { const int form = c.choose(4); Tab t(ladderShape(c, 129, 8, c.tier(4000, 100000))); const size_t d = t.sh.size(); if(form >= 2 && d != 2) c.prune(); t.fill([&](const Co& x) { double y = d == 2 ? std::fabs((double)x[0] - (double)x[1]) : 0; return form == 0 ? (allEqual(x) ? 1.0 : 2.0) : form == 1 ? 4.0 : form == 2 ? 3 * y : std::min(y * y, 20.0); }); const size_t n = t.v.size(); const std::vector<size_t> at = {0, n - 1, n / 2, n / 3, n > 1 ? n - 2 : 0}; t.v[c.pick(at)] += c.flip() ? 1 : -1; MC_TRACE(c, "form " << form << " size " << n); summaries<double>(c, Fn<double, size_t, size_t>::explicitOf(t), t, false); }
