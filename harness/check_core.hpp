#pragma once
#include "dut.hpp"
#include "energy.hpp"
namespace vf {
using pbt::eq; using pbt::near;
using Stats = DRAMPower::SimulationStats;
inline Counters conv(const DRAMPower::command_stats_t& c) {
    Counters r; r.act = c.act; r.pre = c.pre; r.reads = c.reads; r.writes = c.writes; r.readAuto = c.readAuto; r.writeAuto = c.writeAuto; r.refAllBank = c.refAllBank; r.refPerBank = c.refPerBank;
    r.refPerTwoBanks = c.refPerTwoBanks; r.refDualBanks = c.refDualBanks; r.refSameBank = c.refSameBank; return r;
}
inline Cycles conv(const DRAMPower::cycles_t& c) { Cycles r; r.act = c.act; r.pre = c.pre; r.powerDownAct = c.powerDownAct; r.powerDownPre = c.powerDownPre; r.selfRefresh = c.selfRefresh; r.deepSleepMode = c.deepSleepMode; return r; }
inline void eqCounters(const Counters& g, const Counters& w, const std::string& at) {
    eq(g.act, w.act, at + " activates"); eq(g.pre, w.pre, at + " precharges"); eq(g.reads, w.reads, at + " reads"); eq(g.writes, w.writes, at + " writes");
    eq(g.readAuto, w.readAuto, at + " reads with auto-precharge"); eq(g.writeAuto, w.writeAuto, at + " writes with auto-precharge"); eq(g.refAllBank, w.refAllBank, at + " all-bank refreshes");
    eq(g.refPerBank, w.refPerBank, at + " per-bank refreshes"); eq(g.refPerTwoBanks, w.refPerTwoBanks, at + " two-bank refreshes"); eq(g.refDualBanks, w.refDualBanks, at + " dual-bank refreshes"); eq(g.refSameBank, w.refSameBank, at + " same-bank refreshes");
}
inline void eqCycles(const Cycles& g, const Cycles& w, const std::string& at) {
    eq(g.act, w.act, at + " active cycles"); eq(g.powerDownAct, w.powerDownAct, at + " active power-down cycles"); eq(g.powerDownPre, w.powerDownPre, at + " precharge power-down cycles");
    eq(g.selfRefresh, w.selfRefresh, at + " self-refresh cycles"); eq(g.deepSleepMode, w.deepSleepMode, at + " deep-sleep cycles"); eq(g.pre, w.pre, at + " precharged cycles");
}
inline std::string at(uint64_t T, uint64_t r, long b = -1) { std::ostringstream o; o << "at " << T << " rank " << r; if (b >= 0) o << " bank " << b; return o.str(); }
inline void checkShape(const Stats& st, const Par& p) { eq(st.bank.size(), p.ranks * p.banks, "number of bank entries"); eq(st.rank_total.size(), p.ranks, "number of rank entries"); }

// Drives a generated legal history; calls query(T) at points between commands and after the end.
template <typename F> Gen drive(Src& s, const Spec& sp, GenOpt o, Dram* d, F query, unsigned queryNum = 1, unsigned queryDen = 6) {
    Gen g(s, sp, o);
    unsigned n = o.minCmds + s.below(o.maxCmds - o.minCmds + 1);
    for (unsigned i = 0; i < n; ++i) {
        std::size_t before = g.tr.size(); 
        if (!g.step()) continue;
        for (; before < g.tr.size(); ++before) d->doCoreCommand(conv(g.tr[before]));
        if (s.chance(queryNum, queryDen)) { uint64_t T = g.now + (s.chance(1, 2) ? 0 : g.delta()); g.now = T; s << "  query " << T << "\n"; query(g, T); }
    }
    uint64_t T = g.now + g.delta(); s << "  query " << T << "\n"; g.now = T; query(g, T);
    return g;
}
} // namespace vf
