BUGS = [
dict(id="B01", property="C01", edits=[("standards/ddr5/DDR5Core.cpp", "bank.refreshEndTime});", "rank.endRefreshTime});")],
 needs="DDR5, a same-bank refresh followed by a power-down entry before its end, with no later all-bank refresh",
 breaks="precharge power-down starts while a same-bank refresh is still running, so refresh time and power-down time overlap",
 demo='''
int main() {
    auto j = spec("ddr5"); auto d = make("ddr5"); unsigned sb = j["memtimingspec"]["RFCsb_slr"];
    d->doCoreCommand({100, C::REFSB, at(0, 0, 0)}); d->doCoreCommand({100 + sb / 2, C::PDEP, at(0, 0, 0)});
    uint64_t T = 100 + sb + 50; auto st = d->getWindowStats(T);
    same("precharge power-down cycles", st.rank_total[0].cycles.powerDownPre, 50); same("active cycles of the rank", st.rank_total[0].cycles.act, sb);
    return done();
}'''),
dict(id="B02", property="C03", edits=[("standards/lpddr4/LPDDR4Core.cpp", "auto& counter = m_ranks[rank_idx].banks[bank_idx].counter.refPerBank;", "auto& counter = m_ranks.front().banks[bank_idx].counter.refPerBank;")],
 needs="LPDDR4 with at least two ranks and a per-bank refresh on a rank other than the first",
 breaks="per-bank refreshes are counted on the first rank instead of the addressed one",
 demo='''
int main() {
    auto d = make("lpddr4", [](json_t& j) { j["memarchitecturespec"]["nbrOfRanks"] = 2; }); auto j = spec("lpddr4"); unsigned B = j["memarchitecturespec"]["nbrOfBanks"];
    d->doCoreCommand({10, C::REFB, at(1, 0, 3)});
    auto st = d->getWindowStats(100000); same("refreshes of the addressed bank", st.bank[B + 3].counter.refPerBank, 1); same("refreshes of the first rank", st.bank[3].counter.refPerBank, 0);
    return done();
}'''),
dict(id="B03", property="I01", edits=[("util/bus.h", "if(this->pending_stats.isPending() && this->pending_stats.getTimestamp() < virtual_timestamp)\n\t\t{\n\t\t\tthis->stats += this->pending_stats.getStats();\n\t\t\tthis->pending_stats.clear();\n\t\t}\n\t\tadvance_stats(virtual_timestamp, stats);", "if(this->pending_stats.isPending() && this->pending_stats.getTimestamp() + this->burst_storage.size() < virtual_timestamp)\n\t\t{\n\t\t\tthis->stats += this->pending_stats.getStats();\n\t\t\tthis->pending_stats.clear();\n\t\t}\n\t\tadvance_stats(virtual_timestamp, stats);")],
 needs="two bursts on the same bus, the second starting exactly when the first one ends",
 breaks="the first beat of a burst followed seamlessly by another is dropped from the bus statistics",
 demo='''
int main() {
    auto d = make("ddr4"); auto j = spec("ddr4"); unsigned w = j["memarchitecturespec"]["width"], BL = j["memarchitecturespec"]["burstLength"], DR = j["memarchitecturespec"]["dataRate"];
    std::vector<uint8_t> z(w * BL / 8, 0); uint64_t t = 5, n = BL / DR;
    d->doInterfaceCommand({t, C::RD, at(0, 0, 0), z.data(), z.size() * 8}); d->doInterfaceCommand({t + n, C::RD, at(0, 0, 0), z.data(), z.size() * 8});
    auto st = d->getWindowStats(100); same("zeroes on the read bus", st.readBus.zeroes, 2 * BL * w); same("ones on the read bus", st.readBus.ones, 100 * DR * w - 2 * BL * w);
    return done();
}'''),
dict(id="B04", property="I02", edits=[("standards/lpddr4/LPDDR4Interface.cpp", "R17, R18, R6, R7, R8, R9,", "R17, R18, R6, R7, R8, R8,")],
 needs="an LPDDR4 activation of a row whose bits 8 and 9 differ", breaks="row bit 9 is not driven onto the command bus", demo='''
int main() {
    uint64_t o[2]; for (int k = 0; k < 2; ++k) { auto d = make("lpddr4"); d->doInterfaceCommand({4, C::ACT, at(0, 0, 0, k ? 1u << 9 : 0)}); o[k] = d->getWindowStats(20).commandBus.ones; }
    same("ones added by row bit 9", o[1], o[0] + 1); return done();
}'''),
dict(id="B05", property="I06", edits=[("standards/ddr4/DDR4Interface.cpp", "diff = timestamp - *lastAccess;\n        *lastAccess = timestamp + length;", "diff = timestamp - *lastAccess;\n        if (0 != length)\n            rank.lastReadEnd = rank.lastWriteEnd = timestamp + length;")],
 needs="a DDR4 read that starts when the preceding write of the rank ends (or the reverse)", breaks="a transfer that follows one of the other direction without a gap is counted as seamless", demo='''
int main() {
    auto d = make("ddr4"); auto j = spec("ddr4"); unsigned w = j["memarchitecturespec"]["width"], BL = j["memarchitecturespec"]["burstLength"], DR = j["memarchitecturespec"]["dataRate"];
    std::vector<uint8_t> z(w * BL / 8, 0); uint64_t t = 5, n = BL / DR;
    d->doInterfaceCommand({t, C::WR, at(0, 0, 0), z.data(), z.size() * 8}); d->doInterfaceCommand({t + n, C::RD, at(0, 0, 0), z.data(), z.size() * 8});
    auto st = d->getWindowStats(100); same("seamless reads", st.rank_total[0].prepos.readSeamless, 0); same("seamless writes", st.rank_total[0].prepos.writeSeamless, 0); return done();
}'''),
dict(id="B06", property="S01", edits=[("dram/Bank.h", "        stream.write(reinterpret_cast<const char *>(&latestPre), sizeof(latestPre));\n", ""), ("dram/Bank.h", "        stream.read(reinterpret_cast<char *>(&latestPre), sizeof(latestPre));\n", "")],
 needs="a checkpoint shortly after a precharge and, after restoring, a power-down entry before the precharge time has passed", breaks="the restored device forgets the time of the last precharge and enters power-down too early", demo='''
int main() {
    auto j = spec("ddr4"); unsigned rp = j["memtimingspec"]["RP"]; auto a = make("ddr4"), b = make("ddr4");
    a->doCoreCommand({10, C::ACT, at(0, 0, 0)}); a->doCoreCommand({200, C::PRE, at(0, 0, 0)}); std::stringstream s; a->serialize(s); b->deserialize(s);
    for (auto* d : {a.get(), b.get()}) d->doCoreCommand({201, C::PDEP, at(0, 0, 0)});
    auto x = a->getWindowStats(200 + rp + 30), y = b->getWindowStats(200 + rp + 30); same("power-down cycles of the original", x.rank_total[0].cycles.powerDownPre, 30); same("power-down cycles of the restored device", y.rank_total[0].cycles.powerDownPre, 30); return done();
}'''),
dict(id="B07", property="I07", edits=[("standards/lpddr5/interface_calculation_LPDDR5.cpp", "calcStaticTermination(impedances_.rdbi_termination, stats.readDBI, impedances_.rdbi_R_eq,", "calcStaticTermination(impedances_.rdbi_termination, stats.readDBI, impedances_.wdbi_R_eq,")],
 needs="an LPDDR5 specification whose read and write inversion lines have different resistances, and read inversion activity", breaks="the static energy of the read inversion lines is computed with the resistance of the write ones", demo='''
int main() {
    auto d = make("lpddr5", [](json_t& j) { auto& z = j["memimpedancespec"]; z["rdbi_R_eq"] = 50.0; z["wdbi_R_eq"] = 100.0; z["rdbi_termination"] = true; z["wdbi_termination"] = true; });
    SimulationStats st; st.rank_total.resize(1); auto e0 = d->calcInterfaceEnergyStats(st); st.readDBI.ones = 1000; auto e = d->calcInterfaceEnergyStats(st); SimulationStats sw; sw.rank_total.resize(1); sw.writeDBI.ones = 1000; auto w = d->calcInterfaceEnergyStats(sw);
    close("read inversion energy at half the resistance", e.dram.staticEnergy - e0.dram.staticEnergy, 2 * (w.controller.staticEnergy - e0.controller.staticEnergy)); return done();
}'''),
dict(id="B08", property="I04", edits=[("dram/Interface.cpp", "        // Add last burst to count\n        this->count += this->last_burst.last_length;", "        // Add last burst to count\n        this->count += burstlength;")],
 needs="estimated data activity of two transfers of different length in the same direction", breaks="a finished transfer is accounted for with the length of its successor", demo='''
#include <DRAMPower/dram/Interface.h>
int main() {
    TogglingHandle h(8, 2, 0.5, 0.5, DRAMUtils::Config::TogglingRateIdlePattern::L, true); h.incCountBurstLength(10, 8); h.incCountBurstLength(20, 4); auto st = h.get_stats(40);
    same("transitions", st.ones_to_zeroes, (12 / 4) * 8); same("ones", st.ones, 6 * 8); return done();
}'''),
dict(id="B09", property="I05", edits=[("util/pin.h", "if ((virtual_load_time == m_last_set + m_burst_storage.size())", "if ((virtual_load_time == m_last_set + max_burst_length)")],
 needs="inversion enabled and two transfers of which the second starts exactly when the first ends, the first ending with an inverted byte", breaks="the inversion line is taken to return to idle between two seamless transfers", demo='''
#include <DRAMPower/util/pin.h>
int main() {
    util::Pin<64> p(util::PinState::L, util::PinState::L); for (int i = 0; i < 8; ++i) p.set(8, util::PinState::H); for (int i = 0; i < 8; ++i) p.set(16, util::PinState::H);
    auto st = p.get_stats_at(40); same("rises", st.zeroes_to_ones, 1); same("falls", st.ones_to_zeroes, 1); same("ones", st.ones, 16); return done();
}'''),
]
