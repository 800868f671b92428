// Residency bookkeeping as a partition of time, judged without a model of the device.
#include "check_core.hpp"
using namespace vf;
static uint64_t sum(const Cycles& c) { return c.act + c.pre + c.powerDownAct + c.powerDownPre + c.selfRefresh + c.deepSleepMode; }
static void inv(Src& s, const Par& p, const Stats& st, uint64_t T) {
    checkShape(st, p);
    for (uint64_t r = 0; r < p.ranks; ++r) {
        Cycles R = conv(st.rank_total[r].cycles); uint64_t mx = 0, tot = 0;
        eq(sum(R), T, at(T, r) + " sum of the residencies");
        for (uint64_t b = 0; b < p.banks; ++b) {
            Cycles k = conv(st.bank[r * p.banks + b].cycles); auto w = at(T, r, b);
            eq(sum(k), T, w + " sum of the residencies");
            eq(k.powerDownAct, R.powerDownAct, w + " active power-down against its rank"); eq(k.powerDownPre, R.powerDownPre, w + " precharge power-down against its rank");
            eq(k.selfRefresh, R.selfRefresh, w + " self-refresh against its rank"); eq(k.deepSleepMode, R.deepSleepMode, w + " deep sleep against its rank");
            CHECK_MSG(k.act <= T, w << " active residency " << k.act << " exceeds the elapsed time"); mx = std::max(mx, k.act); tot += k.act;
        }
        CHECK_MSG(mx <= R.act && R.act <= tot, at(T, r) << " rank active residency " << R.act << " outside [" << mx << ", " << tot << "] given by its banks");
        s.interesting((R.act > 0) + (R.powerDownAct > 0) + (R.powerDownPre > 0) + (R.selfRefresh > 0) + (R.deepSleepMode > 0));
        if (R.act) s.label("rank with active time"); if (R.powerDownAct) s.label("rank with active power-down time"); if (R.powerDownPre) s.label("rank with precharge power-down time");
        if (R.selfRefresh) s.label("rank with self-refresh time"); if (R.deepSleepMode) s.label("rank with deep-sleep time");
    }
}
static void grows(const Cycles& a, const Cycles& b, uint64_t d, const std::string& w) {
    CHECK_MSG(b.act >= a.act && b.pre >= a.pre && b.powerDownAct >= a.powerDownAct && b.powerDownPre >= a.powerDownPre && b.selfRefresh >= a.selfRefresh && b.deepSleepMode >= a.deepSleepMode, w << " a residency decreased between two queries");
    eq(sum(b) - sum(a), d, w + " growth of the residencies");
}
static void partition(Src& s, GenOpt o) {
    Spec sp = gen_spec(s); auto d = make_dram(sp); Stats prev; uint64_t pT = 0; bool have = false;
    drive(s, sp, o, d.get(), [&](Gen& g, uint64_t T) {
        for (int k = 0; k < 2; ++k) {
            Stats st = d->getWindowStats(T); inv(s, g.m.p, st, T);
            if (have) { for (std::size_t i = 0; i < st.bank.size(); ++i) grows(conv(prev.bank[i].cycles), conv(st.bank[i].cycles), T - pT, at(T, i / g.m.p.banks, i % g.m.p.banks));
                for (std::size_t i = 0; i < st.rank_total.size(); ++i) grows(conv(prev.rank_total[i].cycles), conv(st.rank_total[i].cycles), T - pT, at(T, i)); }
            prev = st; pT = T; have = true;
            if (!s.chance(1, 3)) break;
            T += g.delta(); g.now = T;
        }
    }, 1, 4);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "C02"; p.quick_cases = 240000; p.thorough_cases = 4000000;
    p.rule = "random memory specification of one of the five standards and a random legal command history with queries between commands; a case is non-trivial when at least three (rank, low-power or active state) residencies were non-zero at a query; distinct by the sequence of generator choices";
    p.assumptions = {"histories satisfy the state rules of the generator (no command to a bank or rank whose state forbids it)"};
    GenOpt hi; hi.minCmds = 20; hi.maxCmds = 200;
    GenOpt few; few.maxCmds = 14;
    p.scenarios = {{"mixed history", [](Src& s) { partition(s, {}); }, 4, 3}, {"short history", [few](Src& s) { partition(s, few); }, 3, 3}, {"long history", [hi](Src& s) { partition(s, hi); }, 1, 3}};
    return pbt::pbt_main(c, v, p);
}
