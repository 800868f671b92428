// Clock and strobe activity.
#include "check_iface.hpp"
using namespace vf;
static void clocks(Src& s, GenOpt o, bool tog, bool gate = false) {
    SpecOpt so; if (gate) so.stds = {Std::LPDDR6}; Spec sp = gen_ispec(s, so); uint64_t last = 0; std::optional<Toggle> t; if (tog) t = gen_toggle(s); IfRun r(s, sp, t, o, true);
    unsigned n = o.minCmds + s.below(o.maxCmds - o.minCmds + 1);
    auto query = [&](uint64_t T) { T = std::max(T, r.busyUntil()); s << "  query " << T << "\n"; r.g.now = T; compare(r.d->getWindowStats(T), r.im.expect(T), P_CLK, T); };
    for (unsigned i = 0; i < n; ++i) { if (gate && s.chance(1, 6) && r.g.now > last) { bool flip = s.chance(4, 5); if (flip) last = r.g.now; r.setClock(r.g.now, r.clockOn != flip); } if (!r.step()) continue; if (s.chance(1, 5)) query(r.g.now + (s.chance(1, 3) ? 0 : s.chance(1, 2) ? s.below(12) : r.g.delta())); }
    query(r.g.now + r.g.delta()); s.interesting(r.im.dataLoads);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "I03"; p.quick_cases = 450000; p.thorough_cases = 3000000;
    p.rule = "random specification and random legal history, with and without payload; clock, write clock and strobe levels and transitions compared with the union of the burst intervals at their rates; non-trivial when at least two data transfers were issued";
    p.assumptions = {"strobes are compared when no transfer is in flight", "the data rate of LPDDR5 is a multiple of the write-clock ratio"};
    GenOpt o; o.allow = [](C c) { return c == C::ACT || c == C::RD || c == C::WR || c == C::RDA || c == C::WRA || c == C::PRE; }; GenOpt all;
    p.scenarios = {{"row and column commands", [o](Src& s) { clocks(s, o, false); }, 3, 2}, {"row and column commands without payload", [o](Src& s) { clocks(s, o, true); }, 2, 2}, {"mixed history", [all](Src& s) { clocks(s, all, false); }, 1, 2}, {"interface switched off and on", [o](Src& s) { clocks(s, o, s.chance(1, 4), true); }, 1, 2}};
    return pbt::pbt_main(c, v, p);
}
