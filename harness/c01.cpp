#include "check_core.hpp"
using namespace vf;
static void residency(Src& s, GenOpt o) {
    Spec sp = gen_spec(s); auto d = make_dram(sp);
    Gen g = drive(s, sp, o, d.get(), [&](Gen& g, uint64_t T) {
        g.m.settle(T); Stats st = d->getWindowStats(T); checkShape(st, g.m.p);
        for (uint64_t r = 0; r < g.m.p.ranks; ++r) {
            for (uint64_t b = 0; b < g.m.p.banks; ++b) eqCycles(conv(st.bank[r * g.m.p.banks + b].cycles), g.m.bankCycles(r, b, T), at(T, r, b));
            eqCycles(conv(st.rank_total[r].cycles), g.m.rankCycles(r, T), at(T, r));
        }
    });
    s.interesting(g.tr.size());
}
int main(int c, char** v) {
    pbt::Property p; p.id = "C01"; p.quick_cases = 240000; p.thorough_cases = 4000000;
    p.rule = "random memory specification and random legal history; at random query times every residency of every bank and rank is compared with the measure of interval sets kept by a reference model; a case is non-trivial when at least three commands were issued; distinct by the sequence of generator choices";
    p.assumptions = {"histories satisfy the state rules of the generator; a power-down entry or exit takes effect at the earliest time allowed by RCD after the last activation, RP after the last precharge and the end of refresh"};
    GenOpt hi; hi.minCmds = 40; hi.maxCmds = 250; GenOpt pd; pd.refresh = false; pd.maxCmds = 30; GenOpt few; few.maxCmds = 12;
    p.scenarios = {{"mixed history", [](Src& s) { residency(s, {}); }, 4, 3}, {"power-down and row commands", [pd](Src& s) { residency(s, pd); }, 2, 3}, {"short history", [few](Src& s) { residency(s, few); }, 2, 3}, {"long history", [hi](Src& s) { residency(s, hi); }, 1, 3}};
    return pbt::pbt_main(c, v, p);
}
