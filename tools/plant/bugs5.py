# Third round: written from the property texts and the code alone, after the checks of rounds 1 and 2 were in place.
BUGS = [
dict(id="B57", property="C01", edits=[("standards/lpddr5/LPDDR5Core.cpp", "                bank.refreshEndTime});", "                rank.endRefreshTime});")],
 needs="LPDDR5: power-down entered while a per-bank refresh is running", breaks="the power-down starts before the refresh of the bank has ended", demo='''
int main() { auto d = make("lpddr5"); auto t = std::size_t(spec("lpddr5")["memtimingspec"]["RFCpb"]); d->doCoreCommand({100, C::REFB, at(0, 0, 0)}); d->doCoreCommand({110, C::PDEP, at(0, 0, 0)}); auto s = d->getWindowStats(5000).rank_total[0].cycles; same("precharge power-down cycles", s.powerDownPre, 5000u - 100u - t); return done(); }'''),
dict(id="B59", property="C05", edits=[("standards/lpddr5/core_calculation_LPDDR5.cpp", "if (m_memSpec.bank_arch == MemSpecLPDDR5::MBG) {", "if (m_memSpec.bank_arch != MemSpecLPDDR5::M8B) {")],
 needs="LPDDR5 in the 16-bank mode, a background share below 1 and reads or writes", breaks="the read and write energy is taken over the background of two banks", demo='''
int main() { auto run = [](double rho) { auto d = make("lpddr5", [&](json_t& j) { auto& a = j["memarchitecturespec"]; a["nbrOfBanks"] = 16; a["nbrOfBankGroups"] = 1; j["bankwisespec"]["factRho"] = rho; }); d->doCoreCommand({10, C::ACT, at(0, 0, 0)}); d->doCoreCommand({40, C::RD, at(0, 0, 0)}); return d->calcCoreEnergy(1000).aggregated_bank_energy().E_RD; };
    close("read energy with another background share", run(0.25), run(1.0)); return done(); }'''),
dict(id="B60", property="S05", edits=[("util/bus_types.h", "friend bus_stats_t operator*(const uint64_t lhs, bus_stats_t rhs) {\n		return rhs *= lhs;", "friend bus_stats_t operator*(const uint64_t lhs, const bus_stats_t& rhs) {\n		bus_stats_t scaled;\n		const auto scale = [lhs](double value) { return static_cast<uint64_t>(lhs * value); };\n		scaled.ones = scale(rhs.ones);\n		scaled.zeroes = scale(rhs.zeroes);\n		scaled.bit_changes = scale(rhs.bit_changes);\n		scaled.ones_to_zeroes = scale(rhs.ones_to_zeroes);\n		scaled.zeroes_to_ones = scale(rhs.zeroes_to_ones);\n		return scaled;")],
 needs="clock statistics of a window that is longer than 2^53 cycles", breaks="the clock counts lose their lowest digits", demo='''
int main() { auto d = make("ddr4"); const uint64_t t = (uint64_t(1) << 54) + 1; same("ones of the clock", d->getWindowStats(t).clockStats.ones == 2 * t, true); return done(); }'''),
dict(id="B61", property="U05", edits=[("dram/Interface.cpp", "stats.ones_to_zeroes = count * this->toggling_rate / 2; // Round down", "stats.ones_to_zeroes = (count / 2) * this->toggling_rate; // Round down")],
 needs="an odd number of transferred beats on a toggling line", breaks="a transition is missing from the estimate", demo='''
#include <DRAMPower/dram/Interface.h>
int main() { TogglingHandle h(1, 1, 1.0 / 1.0 * 0.9, 0.5, DRAMUtils::Config::TogglingRateIdlePattern::L, true); h.incCountBurstLength(0, 11); same("transitions", h.get_stats(100).ones_to_zeroes, 4u); TogglingHandle g(1, 1, 0.9, 0.5, DRAMUtils::Config::TogglingRateIdlePattern::L, true); g.incCountBurstLength(0, 9); same("transitions of 9 beats", g.get_stats(100).ones_to_zeroes, 4u); return done(); }'''),
dict(id="B62", property="I01", edits=[("util/databus_presets.h", "busConfig.width <= 1024", "busConfig.width < 4096")],
 needs="a data bus of more than 1024 lines", breaks="the lines above 1024 do not exist on the bus", demo='''
int main() { bool ok = true; try { auto d = make("ddr4", [](json_t& j) { j["memarchitecturespec"]["width"] = 16; j["memarchitecturespec"]["nbrOfDevices"] = 80; }); std::vector<uint8_t> z(16 * 80, 0); d->doInterfaceCommand({10, C::WR, at(0, 0, 0), z.data(), z.size() * 8}); same("zeroes on the write bus", d->getWindowStats(100).writeBus.zeroes, 16u * 80u * 8u); } catch (const std::exception&) { ok = false; } same("accepted", ok, true); return done(); }'''),
dict(id="B63", property="U01", edits=[("util/dynamic_bitset.h", "buffer[bit_index / blocksize][bit_index % blocksize] = value & accumulator;\n            accumulator <<= 1;", "buffer[bit_index / blocksize][bit_index % blocksize] = value & accumulator;\n            accumulator = (accumulator << 1) | (accumulator >> 63);")],
 needs="a bit set of more than 64 bits that is built from an integer", breaks="the integer is repeated in the upper bits", demo='''
#include <DRAMPower/util/dynamic_bitset.h>
int main() { util::dynamic_bitset<32> b(100, 5); same("set bits", b.count(), 2u); return done(); }'''),
dict(id="B64", property="U02", edits=[("util/cycle_stats.h", "		if(!is_open())\n			start_interval(start);", "		if(!this->start)\n			start_interval(start);")],
 needs="an interval counter that is started with start_interval_if_not_running after an interval was closed", breaks="the second interval is not counted", demo='''
#include <DRAMPower/util/cycle_stats.h>
int main() { util::interval_counter<uint64_t> c; c.start_interval_if_not_running(10); c.close_interval(20); c.start_interval_if_not_running(30); same("count", c.get_count_at(50), 30u); return done(); }'''),
dict(id="B66", property="C06", edits=[("data/energy.cpp", "total += bank_energy_total.total() + E_bg_act_shared + E_PDNA + E_PDNP + E_sref + E_dsm + E_refab;", "total += bank_energy_total.total() + E_bg_act_shared + E_PDNA + E_PDNP + std::max(E_sref, E_dsm) + E_refab;"), ("data/energy.cpp", "#include \"energy.h\"\n", "#include \"energy.h\"\n\n#include <algorithm>\n")],
 needs="a history with both self-refresh and deep sleep energy", breaks="the smaller one of the two is missing from the total", demo='''
int main() { energy_t e(1); e.E_sref = 3; e.E_dsm = 2; close("total", e.total(), 5); return done(); }'''),
dict(id="B68", property="L02", cli=True, edits=[("src/cli/lib/DRAMPower/cli/run.cpp", "        if (!config.useToggleRate) {\n            config.simconfig.toggleRateDefinition = std::nullopt;\n        }\n", "")],
 needs="a configuration that defines toggling rates and switches them off", breaks="the toggling rates are used all the same", demo='''
#include <DRAMPower/cli/run.hpp>
#include <DRAMPower/cli/config.h>
int main() { { std::ofstream f("c.json"); f << R"({"useToggleRate": false, "simconfig": {"toggleRateDefinition": {"togglingRateRead": 0.5, "togglingRateWrite": 0.5, "dutyCycleRead": 0.5, "dutyCycleWrite": 0.5, "idlePatternRead": "L", "idlePatternWrite": "L"}}})"; } DRAMPowerCLI::config::CLIConfig c; same("accepted", DRAMPowerCLI::getConfig("c.json", c), true); same("toggling rates are used", c.simconfig.toggleRateDefinition.has_value(), false); return done(); }'''),
dict(id="B70", property="U07", edits=[("util/dbialgos.h", "(idlePattern == PinState::H && ones < zeros);", "(idlePattern == PinState::H && ones < zeros && ones < cur_it.getDigits() / 2);")],
 needs="chunks of several elements, idle level H and a chunk with a narrow majority of zeroes", breaks="the chunk is not inverted", demo='''
#include <DRAMPower/util/dbi.h>
int main() { using D = util::DBI<uint8_t, 2, util::PinState::H, util::StaticDBI>; bool inv = false; D d(std::optional<std::size_t>(16), 1, [&](timestamp_t, timestamp_t, std::size_t, bool i, bool) { inv = i; }, true); std::vector<uint8_t> a{0x3F, 0x00}; d.updateDBI(0, 16, a.data(), false); same("inverted", inv, true); return done(); }'''),
dict(id="B71", property="I07", edits=[("standards/ddr5/interface_calculation_DDR5.cpp", "stats.writeDQSStats, impedances_.wdqs_R_eq, t_CK_, memspec_.dataRateSpec.dqsBusRate, VDDQ_);", "stats.writeDQSStats, impedances_.wdqs_R_eq, t_CK_, memspec_.dataRate, VDDQ_);")],
 needs="a DDR5 specification whose strobe rate differs from the data rate", breaks="the static energy of the write strobe is computed with the data rate", demo='''
#include <DRAMPower/standards/ddr5/interface_calculation_DDR5.h>
int main() { auto j = spec("ddr5");
    MemSpecDDR5 m(j.get<DRAMUtils::MemSpec::MemSpecDDR5>()); m.dataRateSpec.dqsBusRate = 4; m.dataRate = 2; m.memImpedanceSpec.wdqs_termination = true; InterfaceCalculation_DDR5 c(m); SimulationStats s; s.writeDQSStats.zeroes = 1000; double want = 1000 * m.vddq * m.vddq * m.memTimingSpec.tCK / 4 / m.memImpedanceSpec.wdqs_R_eq; close("static energy of the write strobe", c.calculateEnergy(s).controller.staticEnergy, want); return done(); }'''),
dict(id="B72", property="I02", edits=[("standards/ddr4/DDR4Interface.cpp", "                    // Write\n                    m_patternHandler.getEncoder().settings.updateSettings({\n                        {pattern_descriptor::C2, PatternEncoderBitSpec::L},\n                        {pattern_descriptor::C1, PatternEncoderBitSpec::H},", "                    // Write\n                    m_patternHandler.getEncoder().settings.updateSettings({\n                        {pattern_descriptor::C2, PatternEncoderBitSpec::H},\n                        {pattern_descriptor::C1, PatternEncoderBitSpec::H},")],
 needs="a DDR4 write of four beats", breaks="column bit 2 of the write is driven high", demo='''
int main() { auto j = spec("ddr4"); std::size_t w = j["memarchitecturespec"]["width"], n = j["memarchitecturespec"]["nbrOfDevices"]; std::vector<uint8_t> z(w * n, 0); auto zeroes = [&](std::size_t beats) { auto d = make("ddr4"); d->doInterfaceCommand({10, C::WR, at(0, 0, 0), z.data(), w * n * beats}); return d->getWindowStats(11).commandBus.zeroes; }; same("additional low lines of the short write", int(zeroes(4) - zeroes(8)), 1); return done(); }'''),
dict(id="B73", property="I03", edits=[("standards/lpddr6/LPDDR6Interface.cpp", "        // Read\n        m_readDQS.start(cmd.timestamp);\n        m_readDQS.stop(cmd.timestamp + length / m_memSpec.dataRate);", "        // Read\n        m_readDQS.start(cmd.timestamp);\n        m_readDQS.stop(cmd.timestamp + std::max<std::size_t>(length, m_memSpec.burstLength) / m_memSpec.dataRate);")],
 needs="an LPDDR6 specification with a burst length above the one that is transferred", breaks="the read strobe toggles for the nominal burst length", demo='''
int main() { auto j = spec("lpddr6"); std::size_t dr = j["memarchitecturespec"]["dataRate"]; auto d = make("lpddr6", [](json_t& j) { j["memarchitecturespec"]["burstLength"] = 48; }); std::vector<uint8_t> z(32, 0); d->doInterfaceCommand({10, C::RD, at(0, 0, 0), z.data(), 256}); same("ones of the read strobe", d->getWindowStats(1000).readDQSStats.ones, 2u * (24 / dr) * dr / 2); return done(); }'''),
dict(id="B74", property="M01", edits=[("memspec/MemSpecLPDDR5.cpp", "iBeta_vdd2l.value_or(memspec.mempowerspec.idd02l);", "iBeta_vdd2l.value_or(memspec.mempowerspec.idd02h);")],
 needs="an LPDDR5 specification without a precharge current for VDD2L whose active currents differ", breaks="the default is taken from another voltage domain", demo='''
int main() { auto j = spec("lpddr5"); j["mempowerspec"].erase("iBeta_vdd2l"); j["mempowerspec"]["idd02l"] = 0.5; j["mempowerspec"]["idd02h"] = 0.25; MemSpecLPDDR5 m(j.get<DRAMUtils::MemSpec::MemSpecLPDDR5>()); close("iBeta of VDD2L", m.memPowerSpec[2].iBeta, 0.5); return done(); }'''),
dict(id="B75", property="U04", edits=[("util/PatternHandler.h", "            throw std::runtime_error(\"No pattern provided for this coordinate\");\n        }\n        m_lastPattern = m_encoder.encode(coordinate, pattern, m_lastPattern);\n        return m_lastPattern;", "            throw std::runtime_error(\"No pattern provided for this coordinate\");\n        }\n        return m_encoder.encode(coordinate, pattern, m_lastPattern);")],
 needs="an encoder whose lines keep their level, and a coordinate pattern before the next word", breaks="the next word is completed from an older one", demo='''
#include <DRAMPower/util/PatternHandler.h>
int main() { using namespace pattern_descriptor; PatternHandler<C> h(PatternEncoderOverrides{{V, PatternEncoderBitSpec::LAST_BIT}}, 0); h.registerPattern<C::ACT>({V, L}); h.getCoordinatePattern(at(0, 0, 0), {H, H}); same("word", h.getCommandPattern(C::ACT, at(0, 0, 0)), 2u); return done(); }'''),
dict(id="B76", property="S01", edits=[("util/pending_stats.h", "        stream.write(reinterpret_cast<const char*>(&m_pending), sizeof(m_pending));\n", ""), ("util/pending_stats.h", "        stream.read(reinterpret_cast<char*>(&m_pending), sizeof(m_pending));\n", "        m_pending = 0 != m_timestamp;\n")],
 needs="a checkpoint of a device whose buses have no statistics pending any more, or pending at time 0", breaks="statistics that were accounted for already are added once more", demo='''
#include <DRAMPower/util/pending_stats.h>
int main() { util::PendingStats<util::bus_stats_t> a, b; a.setPendingStats(5, {}); a.clear(); std::stringstream s; a.serialize(s); b.deserialize(s); same("pending", b.isPending(), false); util::PendingStats<util::bus_stats_t> c, e; c.setPendingStats(0, {}); std::stringstream t; c.serialize(t); e.deserialize(t); same("pending at time 0", e.isPending(), true); return done(); }'''),
dict(id="B77", property="L01", cli=True, edits=[("src/cli/lib/DRAMPower/cli/run.cpp", "format.trim({ ' ', '\\t' });", "format.trim({ ' ' });")],
 needs="a trace with tabs around its fields", breaks="the command behind a tab is not recognised", demo='''
#include <DRAMPower/cli/run.hpp>
int main() { { std::ofstream f("t.csv"); f << "5,\\tACT,0,0,0,0,0\\n9,\\tPRE,0,0,0,0,0\\n"; } std::vector<std::pair<Command, std::unique_ptr<uint8_t[]>>> l; same("accepted", DRAMPowerCLI::parse_command_list("t.csv", l), true); same("commands", l.size(), 2u); if (l.size() == 2) same("first command", int(l[0].first.type), int(C::ACT)); return done(); }'''),
dict(id="B79", property="C07", edits=[("standards/lpddr5/LPDDR5Core.cpp", "        const Rank &rank = m_ranks[i];\n", "        Rank &rank = m_ranks[i];\n        // Keep the open intervals short\n        for (auto& bank : rank.banks) {\n            if (bank.cycles.act.is_open()) {\n                bank.cycles.act.close_interval(timestamp);\n                bank.cycles.act.start_interval(timestamp);\n            }\n        }\n")],
 needs="LPDDR5: a query between an activation and an auto-precharge or a power-down entry soon after it", breaks="the minimum active time is counted from the query", demo='''
int main() { auto a = make("lpddr5"), b = make("lpddr5"); for (auto* d : {a.get(), b.get()}) d->doCoreCommand({100, C::ACT, at(0, 0, 0)}); a->getWindowStats(118); for (auto* d : {a.get(), b.get()}) d->doCoreCommand({120, C::RDA, at(0, 0, 0)}); same("active cycles", a->getWindowStats(5000).bank[0].cycles.act, b->getWindowStats(5000).bank[0].cycles.act); return done(); }'''),
dict(id="B80", property="C02", edits=[("standards/lpddr5/LPDDR5Core.cpp", "                                        rank.cycles.powerDownPre.get_count_at(timestamp) +\n                                        rank.cycles.sref.get_count_at(timestamp));", "                                        rank.cycles.powerDownPre.get_count_at(timestamp) +\n                                        stats.bank[bank_offset + j].cycles.selfRefresh);")],
 needs="LPDDR5: a deep sleep", breaks="the time in deep sleep counts as precharged time of the banks as well", demo='''
int main() { auto d = make("lpddr5"); d->doCoreCommand({100, C::SREFEN, at(0, 0, 0)}); d->doCoreCommand({2000, C::DSMEN, at(0, 0, 0)}); auto c = d->getWindowStats(9000).bank[0].cycles; same("sum of the states", c.act + c.pre + c.selfRefresh + c.deepSleepMode + c.powerDownAct + c.powerDownPre, 9000u); return done(); }'''),
dict(id="B81", property="R02", edits=[("command/Pattern.cpp", "        std::bitset<64> bitset(0);\n", "        static std::bitset<64> bitset;\n        bitset.reset();\n")],
 needs="two devices that are driven by different threads at the same time", breaks="the command words of the devices mix", demo='''
#include <thread>
int main() { auto run = [](uint64_t& out) { auto d = make("ddr4"); for (timestamp_t t = 1; t < 200000; ++t) d->doInterfaceCommand({t, t % 2 ? C::ACT : C::PRE, at(0, 0, 0, t * 2654435761u % 65536)}); out = d->getWindowStats(200000).commandBus.bit_changes; };
    uint64_t want = 0; run(want); for (int k = 0; k < 5; ++k) { uint64_t got[4]; std::thread th[4]; for (int i = 0; i < 4; ++i) th[i] = std::thread([&, i] { run(got[i]); }); for (auto& t : th) t.join(); for (auto g : got) same("transitions on the command bus", g, want); } return done(); }'''),
]
