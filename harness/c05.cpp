// Core energy against the datasheet formulas.
#include "check_core.hpp"
using namespace vf;
static void cmp(Src& s, const DRAMPower::energy_t& e, const CoreE& w, const Par& p) {
    eq(e.bank_energy.size(), w.bank.size(), "number of bank energies");
    auto n = [&](double g, double x, const std::string& k, double count) { near(g, x, k, w.scale * count * 1e-3); if (x != 0) s.interesting(); };
    for (std::size_t i = 0; i < w.bank.size(); ++i) {
        auto& g = e.bank_energy[i]; auto& x = w.bank[i]; std::ostringstream o; o << "rank " << i / p.banks / p.devices << " device " << i / p.banks % p.devices << " bank " << i % p.banks << " "; auto a = o.str();
        n(g.E_act, x.act, a + "ACT", 1); n(g.E_pre, x.pre, a + "PRE", 1); n(g.E_bg_act, x.bg_act, a + "BG_ACT", 1); n(g.E_bg_pre, x.bg_pre, a + "BG_PRE", 1); n(g.E_RD, x.rd, a + "RD", 1); n(g.E_WR, x.wr, a + "WR", 1);
        n(g.E_RDA, x.rda, a + "RDA", 1); n(g.E_WRA, x.wra, a + "WRA", 1); n(g.E_pre_RDA, x.pre_rda, a + "PRE_RDA", 1); n(g.E_pre_WRA, x.pre_wra, a + "PRE_WRA", 1); n(g.E_ref_AB, x.ab, a + "REF_AB", 1); n(g.E_ref_PB, x.pb, a + "REF_PB", 1);
        n(g.E_ref_SB, x.sb, a + "REF_SB", 1); n(g.E_ref_2B, x.b2, a + "REF_2B", 1); n(g.E_ref_DB, x.db, a + "REF_DB", 1);
    }
    n(e.E_bg_act_shared, w.shared, "shared active background", 1); n(e.E_PDNA, w.pdna, "active power-down", 1); n(e.E_PDNP, w.pdnp, "precharge power-down", 1); n(e.E_sref, w.sref, "self-refresh", 1); n(e.E_dsm, w.dsm, "deep sleep", 1);
    eq(e.E_refab, 0.0, "refresh energy outside the banks");
}
static void fromHistory(Src& s, GenOpt o) {
    Spec sp = gen_spec(s); auto d = make_dram(sp);
    drive(s, sp, o, d.get(), [&](Gen& g, uint64_t T) {
        g.m.settle(T);
        auto w = core_energy(sp, [&](uint64_t r, uint64_t b) { return g.m.bankCounters(r, b, T); }, [&](uint64_t r, uint64_t b) { return g.m.bankCycles(r, b, T); }, [&](uint64_t r) { return g.m.rankCycles(r, T); });
        cmp(s, d->calcCoreEnergy(T), w, g.m.p);
    }, 1, 12);
}
static void fromStats(Src& s) {
    Spec sp = gen_spec(s); auto d = make_dram(sp); Par p = params(sp); Stats st; st.bank.resize(p.ranks * p.banks); st.rank_total.resize(p.ranks);
    auto num = [&] { return s.chance(1, 2) ? 0 : s.chance(1, 8) ? s.below(1ull << 36) : s.below(2000); };
    bool lp4 = sp.std == Std::LPDDR4, lp5 = sp.std == Std::LPDDR5, lp6 = sp.std == Std::LPDDR6, d5 = sp.std == Std::DDR5;
    std::vector<Counters> C_(st.bank.size()); std::vector<Cycles> B(st.bank.size()), R(p.ranks);
    for (std::size_t i = 0; i < st.bank.size(); ++i) {
        auto& c = st.bank[i].counter; c.act = num(); c.pre = num(); c.reads = num(); c.writes = num(); c.readAuto = num(); c.writeAuto = num(); c.refAllBank = num();
        if (lp4 || lp5) c.refPerBank = num(); if (lp5) c.refPerTwoBanks = num(); if (lp6) c.refDualBanks = num(); if (d5) c.refSameBank = num();
        st.bank[i].cycles.act = num(); C_[i] = conv(c); B[i] = conv(st.bank[i].cycles);
    }
    for (uint64_t r = 0; r < p.ranks; ++r) { auto& k = st.rank_total[r].cycles; k.act = num(); k.pre = num(); k.powerDownAct = num(); k.powerDownPre = num(); k.selfRefresh = num(); if (lp5 || lp6) k.deepSleepMode = num(); R[r] = conv(k); }
    if (s.verbose) for (std::size_t i = 0; i < B.size(); ++i) s << "bank " << i << " act=" << C_[i].act << " pre=" << C_[i].pre << " rd=" << C_[i].reads << " wr=" << C_[i].writes << " cyc.act=" << B[i].act << "\n";
    auto w = core_energy(sp, [&](uint64_t r, uint64_t b) { return C_[r * p.banks + b]; }, [&](uint64_t r, uint64_t b) { return B[r * p.banks + b]; }, [&](uint64_t r) { return R[r]; });
    cmp(s, d->calcCoreEnergyStats(st), w, p);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "C05"; p.quick_cases = 360000; p.thorough_cases = 2000000;
    p.rule = "random memory specification (currents, voltages, architecture, timing, bank-wise factors) with either a random legal history or random statistics; every energy component of every bank is compared with an independent evaluation of the datasheet formulas; a case is non-trivial when at least five expected components were non-zero; distinct by the sequence of generator choices";
    p.assumptions = {"relative tolerance 1e-9 of the compared values, widened for cancelling current differences"};
    p.scenarios = {{"energy of a history", [](Src& s) { fromHistory(s, {}); }, 1, 5}, {"energy of statistics", fromStats, 2, 5}};
    return pbt::pbt_main(c, v, p);
}
