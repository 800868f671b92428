// Event counters per bank against the events of the history.
#include "check_core.hpp"
using namespace vf;
static void counters(Src& s, GenOpt o) {
    Spec sp = gen_spec(s); auto d = make_dram(sp);
    Gen g = drive(s, sp, o, d.get(), [&](Gen& g, uint64_t T) {
        g.m.settle(T); Stats st = d->getWindowStats(T); checkShape(st, g.m.p);
        for (uint64_t r = 0; r < g.m.p.ranks; ++r) for (uint64_t b = 0; b < g.m.p.banks; ++b) eqCounters(conv(st.bank[r * g.m.p.banks + b].counter), g.m.bankCounters(r, b, T), at(T, r, b));
        // what the history says, independently of the model
        std::map<C, uint64_t> n; for (auto& c : g.tr) ++n[c.c];
        Counters t; for (auto& x : st.bank) { Counters c = conv(x.counter); t.act += c.act; t.pre += c.pre; t.reads += c.reads; t.writes += c.writes; t.readAuto += c.readAuto; t.writeAuto += c.writeAuto; t.refAllBank += c.refAllBank; t.refPerBank += c.refPerBank; t.refPerTwoBanks += c.refPerTwoBanks; t.refDualBanks += c.refDualBanks; t.refSameBank += c.refSameBank; }
        eq(t.act, n[C::ACT], "activates over all banks"); eq(t.reads, n[C::RD], "reads over all banks"); eq(t.writes, n[C::WR], "writes over all banks"); eq(t.readAuto, n[C::RDA], "reads with auto-precharge over all banks"); eq(t.writeAuto, n[C::WRA], "writes with auto-precharge over all banks");
        eq(t.refAllBank, (n[C::REFA] + n[C::SREFEN]) * g.m.p.banks, "all-bank refreshes over all banks"); eq(t.refPerBank, n[C::REFB], "per-bank refreshes over all banks"); eq(t.refPerTwoBanks, 2 * n[C::REFP2B], "two-bank refreshes over all banks");
        eq(t.refDualBanks, 2 * n[C::REFDB], "dual-bank refreshes over all banks"); eq(t.refSameBank, n[C::REFSB] * g.m.p.groups, "same-bank refreshes over all banks");
        CHECK_MSG(t.pre <= t.act, "more precharges (" << t.pre << ") than activates (" << t.act << ")");
        s.interesting(t.act + t.pre + t.reads + t.writes + t.readAuto + t.writeAuto + n[C::REFA] + t.refPerBank + t.refSameBank + t.refPerTwoBanks + t.refDualBanks);
    });
}
int main(int c, char** v) {
    pbt::Property p; p.id = "C03"; p.quick_cases = 240000; p.thorough_cases = 4000000;
    p.rule = "random memory specification and random legal history, counters compared at random query times with those of a reference model and with sums over the history; a case is non-trivial when at least three events were counted; distinct by the sequence of generator choices";
    p.assumptions = {"histories satisfy the state rules of the generator"};
    GenOpt hi; hi.minCmds = 40; hi.maxCmds = 250; GenOpt np; np.powerDown = np.selfRefresh = false;
    p.scenarios = {{"mixed history", [](Src& s) { counters(s, {}); }, 3, 3}, {"no power-down", [np](Src& s) { counters(s, np); }, 2, 3}, {"long history", [hi](Src& s) { counters(s, hi); }, 1, 3}};
    return pbt::pbt_main(c, v, p);
}
