BUGS = [
dict(id="B36", property="S05", edits=[("dram/Rank.h", "uint64_t 	seamlessPrePostambleCounter_read	= 0;", "uint16_t 	seamlessPrePostambleCounter_read	= 0;")],
 needs="more than 65535 back-to-back reads on one DDR4 rank", breaks="the count of seamless reads starts again at zero", demo='''
int main() { auto d = make("ddr4"); auto j = spec("ddr4"); std::size_t w = j["memarchitecturespec"]["width"], dev = j["memarchitecturespec"]["nbrOfDevices"]; std::vector<uint8_t> z(w * dev, 0); const uint64_t n = 70000;
    for (uint64_t i = 0; i < n; ++i) d->doInterfaceCommand({1000 + 4 * i, C::RD, at(0, 0, 0), z.data(), w * dev * 8}); same("seamless reads", d->getWindowStats(1000 + 4 * n + 100).rank_total[0].prepos.readSeamless, n - 1); return done(); }'''),
dict(id="B37", property="U04", edits=[("command/Pattern.cpp", "bitset[n] = patternApplyBitSpec(settings, descriptor, ((lastpattern >> n) & 1) == 1, column_bits[10]);", "bitset[n] = patternApplyBitSpec(settings, descriptor, ((lastpattern >> (n - 1)) & 1) == 1, column_bits[10]);")],
 needs="the override of column bit 10 with the level of the last command, and a last command in which the neighbouring line is at another level", breaks="the line takes over the level of its neighbour", demo='''
int main() { using namespace pattern_descriptor; PatternEncoder e(PatternEncoderOverrides{{C10, PatternEncoderBitSpec::LAST_BIT}}); std::vector<t> p{H, C10, L};
    same("line at the last level", (e.encode(TargetCoordinate(0, 0, 0, 0, 0), p, 2) >> 1) & 1, 1u); same("line at the last level", (e.encode(TargetCoordinate(0, 0, 0, 0, 1024), p, 1) >> 1) & 1, 0u); return done(); }'''),
dict(id="B38", property="C08", edits=[("standards/ddr5/core_calculation_DDR5.cpp", "E_BG_pre(B, VXX, IXX2N, stats.rank_total[i].cycles.pre * t_CK);", "E_BG_pre(B, VXX, IXX2N, stats.rank_total[i % 2].cycles.pre * t_CK);")],
 needs="DDR5 with three or more ranks whose precharged times differ", breaks="the idle energy of the third rank is computed from the time of the first", demo='''
int main() { double e[3]; for (int k = 0; k < 3; ++k) { auto d = make("ddr5", [](json_t& j) { j["memarchitecturespec"]["nbrOfRanks"] = 3; }); d->doCoreCommand({100, C::ACT, at(k, 0, 0)}); auto x = d->calcCoreEnergy(9000); e[k] = x.total(); }
    close("energy with the work on rank 1", e[1], e[0]); close("energy with the work on rank 2", e[2], e[0]); return done(); }'''),
dict(id="B39", property="I02", edits=[("standards/lpddr5/LPDDR5Interface.cpp", "        wra_pattern[9] = BG0;\n        wra_pattern[10] = BG1;", "        wra_pattern[9] = BG1;\n        wra_pattern[10] = BG0;")],
 needs="LPDDR5 in bank group mode and a write with auto-precharge in bank group 1 or 2", breaks="the two bank group lines are exchanged", demo='''
int main() { auto dev = [] { return make("lpddr5", [](json_t& j) { auto& a = j["memarchitecturespec"]; a["nbrOfBanks"] = 16; a["nbrOfBankGroups"] = 4; a["per2BankOffset"] = 8; }); };
    auto j = spec("lpddr5"); std::size_t w = j["memarchitecturespec"]["width"], n = j["memarchitecturespec"]["nbrOfDevices"], bl = j["memarchitecturespec"]["burstLength"]; std::vector<uint8_t> z(w * n * bl / 8, 0);
    // the words of the auto-precharge commands differ from the plain ones in the same way for every bank group
    auto changes = [&](std::size_t g, C a, C b) { auto d = dev(); d->doInterfaceCommand({10, a, at(0, g, 0), z.data(), z.size() * 8}); d->doInterfaceCommand({60, b, at(0, g, 0), z.data(), z.size() * 8}); auto s = d->getWindowStats(61).commandBus; return s.bit_changes; };
    auto seq = [&](std::size_t g, C a) { auto d = dev(); d->doInterfaceCommand({10, C::PRE, at(0, g, 0)}); d->doInterfaceCommand({11, a, at(0, g, 0), z.data(), z.size() * 8}); return d->getWindowStats(12).commandBus.bit_changes; };
    (void)changes; for (std::size_t g = 0; g < 4; ++g) same("extra transitions of WRA over WR", int(seq(g, C::WRA) - seq(g, C::WR)), int(seq(0, C::WRA) - seq(0, C::WR))); return done(); }'''),
dict(id="B40", property="C03", edits=[("standards/ddr5/DDR5Core.cpp", "void DDR5Core::handlePreSameBank(Rank & rank, std::size_t bank_id, timestamp_t timestamp) {\n    auto bank_id_inside_bg = bank_id % m_memSpec.banksPerGroup;", "void DDR5Core::handlePreSameBank(Rank & rank, std::size_t bank_id, timestamp_t timestamp) {\n    auto bank_id_inside_bg = bank_id & (m_memSpec.banksPerGroup - 1);")],
 needs="a DDR5 specification whose number of banks per group is no power of two, and a same-bank precharge", breaks="other banks than the addressed ones are precharged", demo='''
int main() { auto d = make("ddr5", [](json_t& j) { auto& a = j["memarchitecturespec"]; a["nbrOfBanks"] = 6; a["nbrOfBankGroups"] = 2; }); for (std::size_t b = 0; b < 6; ++b) d->doCoreCommand({100 + b, C::ACT, at(0, b / 3, b)}); d->doCoreCommand({500, C::PRESB, at(0, 1, 4)});
    auto s = d->getWindowStats(1000); for (std::size_t b = 0; b < 6; ++b) same("precharges of the bank", s.bank[b].counter.pre, b % 3 == 1 ? 1u : 0u); return done(); }'''),
dict(id="B41", property="S01", edits=[("dram/Rank.cpp", "    stream.write(reinterpret_cast<const char*>(&lastWriteEnd), sizeof(lastWriteEnd));\n", ""), ("dram/Rank.cpp", "    stream.read(reinterpret_cast<char*>(&lastWriteEnd), sizeof(lastWriteEnd));\n", "")],
 needs="a DDR4 checkpoint between two back-to-back writes", breaks="the write after the checkpoint is not counted as seamless", demo='''
int main() { auto j = spec("ddr4"); std::size_t w = j["memarchitecturespec"]["width"], dev = j["memarchitecturespec"]["nbrOfDevices"]; std::vector<uint8_t> z(w * dev, 0); auto a = make("ddr4"), b = make("ddr4");
    a->doInterfaceCommand({100, C::WR, at(0, 0, 0), z.data(), w * dev * 8}); std::stringstream s; a->serialize(s); b->deserialize(s); for (auto* d : {a.get(), b.get()}) d->doInterfaceCommand({104, C::WR, at(0, 0, 0), z.data(), w * dev * 8});
    same("seamless writes", b->getWindowStats(500).rank_total[0].prepos.writeSeamless, a->getWindowStats(500).rank_total[0].prepos.writeSeamless); return done(); }'''),
dict(id="B42", property="C07", edits=[("standards/ddr5/DDR5.cpp", "        SimulationStats stats;\n        m_core.getWindowStats(timestamp, stats);\n        m_interface.getWindowStats(timestamp, stats);\n        return stats;", "        if (m_window && m_window->first == timestamp && m_windowEnd == getLastCommandTime()) { return m_window->second; }\n        SimulationStats stats;\n        m_core.getWindowStats(timestamp, stats);\n        m_interface.getWindowStats(timestamp, stats);\n        m_window.emplace(timestamp, stats);\n        m_windowEnd = getLastCommandTime();\n        return stats;"), ("standards/ddr5/DDR5.h", "    DDR5Core m_core;\n", "    DDR5Core m_core;\n    std::optional<std::pair<timestamp_t, SimulationStats>> m_window;\n    timestamp_t m_windowEnd = 0;\n"), ("standards/ddr5/DDR5.h", "#include <algorithm>\n", "#include <algorithm>\n#include <optional>\n#include <utility>\n")],
 needs="DDR5: a query, another command at the time of the last command, and the same query again", breaks="the second query answers from before the command", demo='''
int main() { auto a = make("ddr5"), b = make("ddr5"); for (auto* d : {a.get(), b.get()}) d->doCoreCommand({100, C::ACT, at(0, 0, 0)}); a->getWindowStats(100); for (auto* d : {a.get(), b.get()}) d->doCoreCommand({100, C::ACT, at(0, 0, 1)});
    same("statistics after a query in between", a->getWindowStats(100) == b->getWindowStats(100), true); return done(); }'''),
dict(id="B43", property="U05", edits=[("dram/Interface.cpp", "    this->disable_time += timestamp * this->datarate - this->disable_timestamp;", "    this->disable_time = timestamp * this->datarate - this->disable_timestamp;")],
 needs="a toggling line that is switched off and on twice", breaks="only the last pause is taken out of the idle time", demo='''
#include <DRAMPower/dram/Interface.h>
int main() { TogglingHandle h(8, 1, 0.5, 0.5, DRAMUtils::Config::TogglingRateIdlePattern::L, true); h.disable(10); h.enable(20); h.disable(30); h.enable(45); same("idle zeroes", h.get_stats(100).zeroes, 8u * 75); return done(); }'''),
dict(id="B44", property="U07", edits=[("util/dbi.h", "std::copy(m_invertedData.end() - n_subChunks, m_invertedData.end(), m_lastBurst.m_lastbeat.begin());", "std::copy(m_invertedData.begin(), m_invertedData.begin() + n_subChunks, m_lastBurst.m_lastbeat.begin());")],
 needs="the inversion rule that compares with the previous beat, and a burst that follows seamlessly on one whose first and last beats differ", breaks="the new burst is compared with the first beat of the previous one", demo='''
#include <DRAMPower/util/dbi.h>
int main() { using D = util::DBI<uint8_t, 1, util::PinState::L, util::DynamicDBI<4>>; bool last = true; D d(std::optional<std::size_t>(8), 4, [&](timestamp_t, timestamp_t, std::size_t, bool inv, bool) { last = inv; }, true); std::vector<uint8_t> a{0, 0, 0, 7}, b{7, 7, 7, 7}, c{0x7F, 0x7F, 0x7F, 0x7F};
    std::vector<int> got; (void)got; d.updateDBI(0, 32, a.data(), false); d.updateDBI(4, 32, c.data(), false); same("inversion of the first beat", d.getInversionStateWrite()[0], false); return done(); }'''),
dict(id="B46", property="L02", cli=True, edits=[("src/cli/lib/DRAMPower/cli/run.cpp", "result = std::make_unique<LPDDR6>(ddr, simconfig);", "result = std::make_unique<LPDDR6>(ddr);")],
 needs="the command line tool with a toggling-rate configuration for LPDDR6", breaks="the configuration is not used", demo='''
#include <DRAMPower/cli/run.hpp>
int main() { config::SimConfig c; c.toggleRateDefinition = DRAMUtils::Config::ToggleRateDefinition{0.5, 0.5, 0.5, 0.5, DRAMUtils::Config::TogglingRateIdlePattern::L, DRAMUtils::Config::TogglingRateIdlePattern::L}; auto d = DRAMPowerCLI::getMemory(std::string(RES) + "lpddr6.json", c); same("device", d != nullptr, true);
    if (d) { std::vector<uint8_t> z(32, 0); d->doCommand({10, C::RD, at(0, 0, 0), z.data(), 256}); same("estimated transitions", d->getWindowStats(1000).togglingStats.read.bit_changes > 0, true); } return done(); }'''),
dict(id="B47", property="M01", edits=[("memspec/MemSpecLPDDR6.cpp", "memTimingSpec.tRCDW      = memspec.memtimingspec.RCD_w;", "memTimingSpec.tRCDW      = memspec.memtimingspec.RCD_r;")],
 needs="an LPDDR6 specification whose write activation time is above the read one", breaks="the write activation time is not read", demo='''
int main() { auto j = spec("lpddr6"); j["memtimingspec"]["RCD_r"] = 11; j["memtimingspec"]["RCD_w"] = 17; MemSpecLPDDR6 m(j.get<DRAMUtils::MemSpec::MemSpecLPDDR6>()); same("RCD_w", m.memTimingSpec.tRCDW, 17u); return done(); }'''),
dict(id="B49", property="S02", edits=[("standards/ddr4/DDR4.h", "return std::max(m_core.getLastCommandTime(), m_interface.getLastCommandTime());", "return m_interface.getLastCommandTime() ? m_interface.getLastCommandTime() : m_core.getLastCommandTime();")],
 needs="DDR4: a core command later than the last interface command", breaks="getStats ends its window before the last core command", demo='''
int main() { auto d = make("ddr4"); d->doInterfaceCommand({10, C::ACT, at(0, 0, 0)}); d->doCoreCommand({10, C::ACT, at(0, 0, 0)}); d->doCoreCommand({700, C::PRE, at(0, 0, 0)}); same("time of the last command", d->getLastCommandTime(), 700u); return done(); }'''),
dict(id="B50", property="C01", edits=[("standards/lpddr6/LPDDR6Core.cpp", "bank.cycles.act.get_start() + std::max(m_memSpec.tRCDR, m_memSpec.tRCDW),", "bank.cycles.act.get_start() + m_memSpec.tRCDR,")],
 needs="an LPDDR6 specification whose write activation time is above the read one, and a power-down entry in between after an activation", breaks="power-down starts too early", demo='''
int main() { auto d = make("lpddr6", [](json_t& j) { j["memtimingspec"]["RCD_r"] = 11; j["memtimingspec"]["RCD_w"] = 31; }); d->doCoreCommand({100, C::ACT, at(0, 0, 0)}); d->doCoreCommand({105, C::PDEA, at(0, 0, 0)}); same("power-down cycles", d->getWindowStats(1000).rank_total[0].cycles.powerDownAct, 1000u - 131u); return done(); }'''),
dict(id="B51", property="C02", edits=[("standards/ddr5/DDR5Core.cpp", "        if (rank_active) {\n            rank.cycles.act.start_interval(exitTime);\n        }\n", "        if (rank_active && !rank.cycles.act.is_open()) {\n            rank.cycles.act.start_interval(exitTime);\n        }\n"), ("standards/ddr5/DDR5Core.cpp", "        if (rank.cycles.act.is_open()) {\n            rank.cycles.act.close_interval(entryTime);\n        }\n", "        if (rank.cycles.act.is_open() && rank.countActiveBanks() > 1) {\n            rank.cycles.act.close_interval(entryTime);\n        }\n")],
 needs="DDR5: active power-down with exactly one open bank", breaks="the rank counts the power-down time as active as well", demo='''
int main() { auto d = make("ddr5"); d->doCoreCommand({100, C::ACT, at(0, 0, 0)}); d->doCoreCommand({200, C::PDEA, at(0, 0, 0)}); d->doCoreCommand({700, C::PDXA, at(0, 0, 0)}); auto s = d->getWindowStats(1000).rank_total[0].cycles; same("sum of the states", s.act + s.pre + s.powerDownAct + s.powerDownPre + s.selfRefresh, 1000u); same("active", s.act, 400u); return done(); }'''),
dict(id="B53", property="C05", edits=[("standards/ddr5/core_calculation_DDR5.cpp", "auto I_BG = I_rho + (I_1 - I_rho) * BG;", "auto I_BG = I_rho + (I_1 - I_rho) * m_memSpec.banksPerGroup;")],
 needs="DDR5 same-bank refreshes, a share other than 1 and a number of bank groups that differs from the banks per group", breaks="the background current taken out of the same-bank refresh energy is that of the wrong number of banks", demo='''
int main() { auto run = [](std::size_t groups) { auto d = make("ddr5", [&](json_t& j) { auto& a = j["memarchitecturespec"]; a["nbrOfBanks"] = 16; a["nbrOfBankGroups"] = groups; j["bankwisespec"]["factRho"] = 0.25; }); d->doCoreCommand({10, C::REFSB, at(0, 0, 0)}); auto e = d->calcCoreEnergy(100000); return e.aggregated_bank_energy().E_ref_SB; };
    auto j = spec("ddr5"); auto& p = j["mempowerspec"]; auto& t = j["memtimingspec"]; double tr = double(t["RFCsb_slr"]) * double(t["tCK"]); double want = 0; const double rho = 0.25, B = 16, BG = 2; for (int k = 0; k < 2; ++k) { double v = p[k ? "vpp" : "vdd"], i2 = p[k ? "ipp2n" : "idd2n"], i3 = p[k ? "ipp3n" : "idd3n"], i5 = p[k ? "ipp5c" : "idd5c"]; double ir = rho * (i3 - i2) + i2, i1 = (i3 + (B - 1) * ir) / B, ibg = ir + (i1 - ir) * BG; want += v * (i5 - ibg) * tr; }
    close("energy of one same-bank refresh", run(2), want); return done(); }'''),
dict(id="B54", property="S03", edits=[("data/stats.h", "				readSeamless == rhs.readSeamless &&\n				writeSeamless == rhs.writeSeamless;", "				readSeamless == rhs.readSeamless &&\n				writeSeamless == rhs.readSeamless;")],
 needs="two records with transfers whose seamless reads and writes differ in number", breaks="a record is not equal to its copy", demo='''
int main() { SimulationStats s; s.rank_total.resize(1); s.rank_total[0].prepos.readSeamless = 3; s.rank_total[0].prepos.writeSeamless = 5; SimulationStats t = s; same("equal to its copy", s == t, true); return done(); }'''),
dict(id="B55", property="U06", edits=[("util/ImplicitCommandHandler.h", """        while (!m_implicitCommandList.empty() && m_implicitCommandList.front().first <= timestamp) {
            // Execute implicit command functor
            auto& [i_timestamp, i_implicitCommand] = m_implicitCommandList.front();
            i_implicitCommand(context);
            last_command_time = i_timestamp;
            m_implicitCommandList.pop_front();
        }""", """        std::size_t due = 0;
        while (due < m_implicitCommandList.size() && m_implicitCommandList[due].first <= timestamp) {
            // Execute implicit command functor
            auto& [i_timestamp, i_implicitCommand] = m_implicitCommandList[due++];
            i_implicitCommand(context);
            last_command_time = i_timestamp;
        }
        m_implicitCommandList.erase(m_implicitCommandList.begin(), m_implicitCommandList.begin() + (due > 64 ? 64 : due));""")],
 needs="more than 64 deferred commands that are due at the same query", breaks="the ones above 64 are executed again later", demo='''
#include <DRAMPower/util/ImplicitCommandHandler.h>
int main() { ImplicitCommandHandler<int> h; int n = 0; timestamp_t last = 0; for (int i = 0; i < 100; ++i) h.addImplicitCommand(10, [](int& c) { ++c; }); h.processImplicitCommandQueue(n, 20, last); h.processImplicitCommandQueue(n, 30, last); same("executions", n, 100); return done(); }'''),
dict(id="B56", property="I06", edits=[("standards/ddr4/DDR4Interface.cpp", "        diff = timestamp - *lastAccess;\n        *lastAccess = timestamp + length;", "        diff = timestamp - *lastAccess;\n        *lastAccess = timestamp + std::max<uint64_t>(length, 2);")],
 needs="DDR4 reads without data on the data bus that follow each other by fewer than two cycles, or of one cycle", breaks="a transfer that follows a very short one is not counted as seamless", demo='''
int main() { auto j = spec("ddr4"); std::size_t w = j["memarchitecturespec"]["width"], dev = j["memarchitecturespec"]["nbrOfDevices"], dr = j["memarchitecturespec"]["dataRate"]; std::vector<uint8_t> z(w * dev * dr, 0); auto d = make("ddr4"); d->doInterfaceCommand({100, C::RD, at(0, 0, 0), z.data(), w * dev * dr}); d->doInterfaceCommand({101, C::PRE, at(0, 0, 0)}); d->doInterfaceCommand({102, C::RD, at(0, 0, 0), z.data(), w * dev * dr});
    same("seamless reads", d->getWindowStats(500).rank_total[0].prepos.readSeamless, 0u); return done(); }'''),
]
