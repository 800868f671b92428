// Every number of a statistics record by name, so that records are compared without the code's own operators.
#pragma once
#include "energy_if.hpp"
namespace vf {
struct Field { std::string n; uint64_t* p; };
inline std::vector<Field> fields(Stats& s) {
    std::vector<Field> v; auto bus = [&](const std::string& n, DRAMPower::util::bus_stats_t& b) { v.push_back({n + ".ones", &b.ones}); v.push_back({n + ".zeroes", &b.zeroes}); v.push_back({n + ".bit_changes", &b.bit_changes}); v.push_back({n + ".ones_to_zeroes", &b.ones_to_zeroes}); v.push_back({n + ".zeroes_to_ones", &b.zeroes_to_ones}); };
    bus("commandBus", s.commandBus); bus("readBus", s.readBus); bus("writeBus", s.writeBus); bus("clockStats", s.clockStats); bus("wClockStats", s.wClockStats); bus("readDBI", s.readDBI); bus("writeDBI", s.writeDBI);
    bus("togglingStats.read", s.togglingStats.read); bus("togglingStats.write", s.togglingStats.write); bus("readDQSStats", s.readDQSStats); bus("writeDQSStats", s.writeDQSStats);
    auto cs = [&](const std::string& n, DRAMPower::CycleStats& c) {
        auto& k = c.counter; for (auto& f : std::initializer_list<std::pair<const char*, uint64_t*>>{{"act", &k.act}, {"pre", &k.pre}, {"reads", &k.reads}, {"writes", &k.writes}, {"refAllBank", &k.refAllBank}, {"refPerBank", &k.refPerBank}, {"refPerTwoBanks", &k.refPerTwoBanks}, {"refDualBanks", &k.refDualBanks}, {"refSameBank", &k.refSameBank}, {"readAuto", &k.readAuto}, {"writeAuto", &k.writeAuto}}) v.push_back({n + ".counter." + f.first, f.second});
        auto& y = c.cycles; for (auto& f : std::initializer_list<std::pair<const char*, uint64_t*>>{{"act", &y.act}, {"pre", &y.pre}, {"powerDownAct", &y.powerDownAct}, {"powerDownPre", &y.powerDownPre}, {"selfRefresh", &y.selfRefresh}, {"deepSleepMode", &y.deepSleepMode}}) v.push_back({n + ".cycles." + f.first, f.second});
        auto& q = c.prepos; for (auto& f : std::initializer_list<std::pair<const char*, uint64_t*>>{{"readMerged", &q.readMerged}, {"readMergedTime", &q.readMergedTime}, {"writeMerged", &q.writeMerged}, {"writeMergedTime", &q.writeMergedTime}, {"readSeamless", &q.readSeamless}, {"writeSeamless", &q.writeSeamless}}) v.push_back({n + ".prepos." + f.first, f.second}); };
    for (std::size_t i = 0; i < s.bank.size(); ++i) cs("bank[" + std::to_string(i) + "]", s.bank[i]);
    for (std::size_t i = 0; i < s.rank_total.size(); ++i) cs("rank[" + std::to_string(i) + "]", s.rank_total[i]);
    return v;
}
inline void sameStats(Stats a, Stats b, const std::string& what) {
    eq(a.bank.size(), b.bank.size(), what + ": number of banks"); eq(a.rank_total.size(), b.rank_total.size(), what + ": number of ranks");
    // one word per field: cheap comparison first, names only on a difference
    auto x = fields(a), y = fields(b); for (std::size_t i = 0; i < x.size(); ++i) if (*x[i].p != *y[i].p) eq(*x[i].p, *y[i].p, what + ": " + x[i].n);
}
inline std::vector<std::pair<std::string, double>> numbers(const DRAMPower::energy_info_t& e) { return {{"ACT", e.E_act}, {"PRE", e.E_pre}, {"BG_ACT", e.E_bg_act}, {"BG_PRE", e.E_bg_pre}, {"RD", e.E_RD}, {"WR", e.E_WR}, {"RDA", e.E_RDA}, {"WRA", e.E_WRA}, {"PRE_RDA", e.E_pre_RDA}, {"PRE_WRA", e.E_pre_WRA}, {"REF_AB", e.E_ref_AB}, {"REF_PB", e.E_ref_PB}, {"REF_SB", e.E_ref_SB}, {"REF_2B", e.E_ref_2B}, {"REF_DB", e.E_ref_DB}}; }
inline std::vector<std::pair<std::string, double>> numbers(const DRAMPower::energy_t& e) { return {{"E_bg_act_shared", e.E_bg_act_shared}, {"E_PDNA", e.E_PDNA}, {"E_PDNP", e.E_PDNP}, {"E_sref", e.E_sref}, {"E_dsm", e.E_dsm}, {"E_refab", e.E_refab}}; }
inline void sameEnergy(const DRAMPower::energy_t& a, const DRAMPower::energy_t& b, const std::string& w, double rel = 0) {
    eq(a.bank_energy.size(), b.bank_energy.size(), w + ": number of bank energies"); auto n = [&](double x, double y, const std::string& k) { if (rel == 0) { if (!(x == y || (std::isnan(x) && std::isnan(y)))) eq(x, y, w + ": " + k); } else near(x, y, w + ": " + k, 0, rel); };
    for (std::size_t i = 0; i < a.bank_energy.size(); ++i) { auto x = numbers(a.bank_energy[i]), y = numbers(b.bank_energy[i]); for (std::size_t k = 0; k < x.size(); ++k) n(x[k].second, y[k].second, "bank " + std::to_string(i) + " " + x[k].first); }
    auto x = numbers(a), y = numbers(b); for (std::size_t k = 0; k < x.size(); ++k) n(x[k].second, y[k].second, x[k].first);
}
// same numbers for both devices: statistics, core and interface energy
inline void sameDevice(Dram& a, Dram& b, uint64_t T, const std::string& w, bool last = true) {
    Stats x = a.getWindowStats(T), y = b.getWindowStats(T); sameStats(x, y, w); sameEnergy(a.calcCoreEnergy(T), b.calcCoreEnergy(T), w); IfE p = conv(a.calcInterfaceEnergy(T)), q = conv(b.calcInterfaceEnergy(T));
    eq(p.cs, q.cs, w + ": controller static energy"); eq(p.cd, q.cd, w + ": controller dynamic energy"); eq(p.ds, q.ds, w + ": device static energy"); eq(p.dd, q.dd, w + ": device dynamic energy"); if (last) eq(a.getLastCommandTime(), b.getLastCommandTime(), w + ": time of the last command");
}
} // namespace vf
