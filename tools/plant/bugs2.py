BUGS = [
dict(id="B10", property="C02", edits=[("standards/lpddr4/LPDDR4Core.cpp", "simulation_duration - (stats.bank[bank_offset + j].cycles.act +\n                                        rank.cycles.powerDownAct.get_count_at(timestamp) +\n                                        rank.cycles.powerDownPre.get_count_at(timestamp) +",
 "simulation_duration - (stats.bank[bank_offset + j].cycles.act +\n                                        rank.cycles.powerDownAct.get_count_at(timestamp) +\n                                        rank.cycles.powerDownPre.get_count() +")],
 needs="an LPDDR4 statistics query while precharge power-down is still open", breaks="the precharged cycles of the banks include the power-down that is still open, so the states no longer add up to the elapsed time", demo='''
int main() { auto d = make("lpddr4"); d->doCoreCommand({100, C::PDEP, at(0, 0, 0)}); auto st = d->getWindowStats(500); auto& c = st.bank[0].cycles;
    same("cycles of the states of a bank", c.act + c.pre + c.powerDownAct + c.powerDownPre + c.selfRefresh, 500); return done(); }'''),
dict(id="B11", property="C05", edits=[("standards/lpddr5/core_calculation_LPDDR5.cpp", "E_ref_p2b(VDD, IDD5PB_B, I_2, t_RFCPB, bank.counter.refPerTwoBanks)", "E_ref_p2b(VDD, IDD5PB_B, I_1, t_RFCPB, bank.counter.refPerTwoBanks)")],
 needs="LPDDR5 pairwise bank refreshes and a bank-wise share other than 1", breaks="the energy of a refresh of two banks is computed over the wrong background current", demo='''
int main() { auto j = spec("lpddr5"); double rho = 0.25; j["bankwisespec"]["factRho"] = rho; MemSpecLPDDR5 m(j.get<DRAMUtils::MemSpec::MemSpecLPDDR5>()); LPDDR5 d(m, config::SimConfig{});
    SimulationStats s; s.bank.resize(m.numberOfBanks * m.numberOfRanks); s.rank_total.resize(m.numberOfRanks); s.bank[0].counter.refPerTwoBanks = 3; double got = d.calcCoreEnergyStats(s).bank_energy[0].E_ref_2B, want = 0;
    using V = MemSpecLPDDR5::VoltageDomain; for (auto vd : {V::VDD1, V::VDD2H, V::VDD2L}) { auto& p = m.memPowerSpec[vd]; auto& t = m.memTimingSpec; double B = m.numberOfBanks, ir = (B * rho * p.iDD3NX + (1 - rho) * p.iDD2NX) / (B * rho + 1 - rho), i2 = p.iDD3NX + (p.iDD3NX - ir);
        double rfc = t.tRFCPB * t.tCK, refi = t.tREFI * t.tCK / 8, i5 = (p.iDD5PBX * refi - p.iDD2NX * (refi - rfc)) / rfc; want += 0.5 * p.vDDX * (i5 - i2) * rfc * 3; }
    same("energy is not zero", want != 0, true); close("energy of three refreshes of two banks", got, want); return done(); }'''),
dict(id="B12", property="C06", edits=[("data/energy.cpp", "    this->E_ref_2B += other.E_ref_2B;\n    this->E_ref_DB += other.E_ref_DB;\n", "    this->E_ref_2B += other.E_ref_2B;\n")],
 needs="the sum of bank energies that contain energy of dual-bank refreshes", breaks="the energy of dual-bank refreshes is missing from the aggregated energy", demo='''
int main() { energy_info_t a, b; a.E_ref_DB = 3; b.E_ref_DB = 4; b.E_ref_2B = 2; a += b; close("dual-bank refresh energy of the sum", a.E_ref_DB, 7); close("two-bank refresh energy of the sum", a.E_ref_2B, 2); return done(); }'''),
dict(id="B13", property="C07", edits=[("standards/lpddr4/LPDDR4Core.cpp", "stats.rank_total.resize(m_memSpec.numberOfRanks);\n\n    auto simulation_duration = timestamp;", "stats.rank_total.resize(m_memSpec.numberOfRanks);\n\n    auto simulation_duration = m_last_command_time = timestamp;")],
 needs="LPDDR4: a statistics query after the last command, then a query at the time of the last command", breaks="a query changes the time of the last command, so a later getStats reports another window", demo='''
int main() { auto a = make("lpddr4"), b = make("lpddr4"); for (auto* d : {a.get(), b.get()}) d->doCoreCommand({100, C::ACT, at(0, 0, 0)});
    a->getWindowStats(5000); same("statistics after a query in between", a->getStats() == b->getStats(), true); return done(); }'''),
dict(id="B14", property="C08", edits=[("standards/lpddr5/core_calculation_LPDDR5.cpp", "energy.E_dsm += VDD * IDD6DS * stats.rank_total[i].cycles.deepSleepMode * t_CK * m_memSpec.numberOfDevices;", "energy.E_dsm += VDD * IDD6DS * stats.rank_total[i].cycles.deepSleepMode * t_CK;")],
 needs="LPDDR5 with more than one device and time in deep sleep", breaks="the deep sleep energy is that of one device only", demo='''
int main() { double e[2]; for (int k = 0; k < 2; ++k) { auto d = make("lpddr5", [&](json_t& j) { j["memarchitecturespec"]["nbrOfDevices"] = k + 1; j["memarchitecturespec"]["maxDevicesPerRank"] = 2; }); d->doCoreCommand({100, C::SREFEN, at(0, 0, 0)}); d->doCoreCommand({2000, C::DSMEN, at(0, 0, 0)}); e[k] = d->calcCoreEnergy(9000).E_dsm; }
    same("deep sleep energy is not zero", e[0] != 0, true); close("deep sleep energy of two devices", e[1], 2 * e[0]); return done(); }'''),
dict(id="B15", property="I03", edits=[("standards/lpddr5/LPDDR5Interface.cpp", "        // Write\n        if (!m_memSpec.wckAlwaysOnMode) {\n            m_wck.start(cmd.timestamp);\n            m_wck.stop(cmd.timestamp + length / m_memSpec.dataRate);", "        // Write\n        if (!m_memSpec.wckAlwaysOnMode) {\n            m_wck.start(cmd.timestamp);\n            m_wck.stop(cmd.timestamp + m_memSpec.burstLength / m_memSpec.dataRate);")],
 needs="LPDDR5 with WCK gated and a write whose data is not one nominal burst long (or absent)", breaks="the write clock toggles for the nominal burst length, not for the data that is transferred", demo='''
int main() { auto d = make("lpddr5", [](json_t& j) { j["memarchitecturespec"]["WCKalwaysOn"] = false; }); auto j = spec("lpddr5"); unsigned w = j["memarchitecturespec"]["width"], BL = j["memarchitecturespec"]["burstLength"];
    std::vector<uint8_t> z(w * BL / 8 * 2, 0); auto e = make("lpddr5", [](json_t& j) { j["memarchitecturespec"]["WCKalwaysOn"] = false; });
    d->doInterfaceCommand({10, C::WR, at(0, 0, 0), z.data(), z.size() * 8}); e->doInterfaceCommand({10, C::WR, at(0, 0, 0), z.data(), z.size() * 4});
    auto x = d->getWindowStats(1000).wClockStats, y = e->getWindowStats(1000).wClockStats; same("write clock cycles of two bursts", x.ones, 2 * y.ones); same("write clock runs", y.ones > 0, true); return done(); }'''),
dict(id="B16", property="I08", edits=[("standards/lpddr6/LPDDR6Interface.cpp", "        m_formatResult.resize(requiredBytes);\n    }\n    std::fill_n(m_formatResult.begin(), requiredBytes, 0);", "        m_formatResult.resize(requiredBytes);\n        std::fill_n(m_formatResult.begin(), requiredBytes, 0);\n    }")],
 needs="two LPDDR6 data bursts, the first with bits set that are clear in the second", breaks="bits of the previous burst stay in the formatted data of the next one", demo='''
int main() { auto run = [](bool before) { auto d = make("lpddr6"); auto j = spec("lpddr6"); std::vector<uint8_t> o(32, 0xFF), z(32, 0); 
        if (before) d->doInterfaceCommand({10, C::WR, at(0, 0, 0), o.data(), 256}); auto a = d->getWindowStats(500).writeBus; d->doInterfaceCommand({1000, C::WR, at(0, 0, 0), z.data(), 256}); auto b = d->getWindowStats(1500).writeBus; return b.zeroes - a.zeroes; };
    same("zeroes a burst of zeroes drives after a burst of ones", run(true), run(false)); return done(); }'''),
dict(id="B17", property="S02", edits=[("standards/lpddr6/LPDDR6.h", "return std::max(m_core.getLastCommandTime(), m_interface.getLastCommandTime());", "return m_core.getLastCommandTime();")],
 needs="LPDDR6: an interface command later than the last core command", breaks="getStats ends its window before the last interface command", demo='''
int main() { auto d = make("lpddr6"); d->doCoreCommand({10, C::ACT, at(0, 0, 0)}); d->doInterfaceCommand({10, C::ACT, at(0, 0, 0)}); d->doInterfaceCommand({700, C::PRE, at(0, 0, 0)});
    same("time of the last command", d->getLastCommandTime(), 700); return done(); }'''),
dict(id="B18", property="S03", edits=[("data/stats.h", "bank.insert(bank.end(), rhs.bank.begin() + min_bank, rhs.bank.end());", "bank.insert(bank.end(), rhs.bank.begin(), rhs.bank.end() - min_bank);")],
 needs="a sum of records where the right one has more banks than a non-empty left one", breaks="the banks only the right record has are taken from its beginning", demo='''
int main() { SimulationStats a, b; a.bank.resize(1); b.bank.resize(3); b.bank[0].counter.act = 1; b.bank[1].counter.act = 2; b.bank[2].counter.act = 3; a += b; same("banks", a.bank.size(), 3u); same("bank 1", a.bank[1].counter.act, 2u); same("bank 2", a.bank[2].counter.act, 3u); return done(); }'''),
dict(id="B19", property="S04", edits=[("standards/lpddr4/LPDDR4Core.cpp", "m_implicitCommandHandler.addImplicitCommand(delayed_timestamp, [rank_idx, bank_idx, delayed_timestamp](LPDDR4Core& self) {\n        auto& rank = self.m_ranks[rank_idx];\n        auto& bank = rank.banks[bank_idx];\n        self.handlePre(rank, bank, delayed_timestamp);\n    });\n}\n\nvoid LPDDR4Core::handleWriteAuto", "m_implicitCommandHandler.addImplicitCommand(delayed_timestamp, [this, rank_idx, bank_idx, delayed_timestamp](LPDDR4Core& self) {\n        auto& rank = this->m_ranks[rank_idx];\n        auto& bank = rank.banks[bank_idx];\n        self.handlePre(rank, bank, delayed_timestamp);\n    });\n}\n\nvoid LPDDR4Core::handleWriteAuto")],
 needs="a copy of an LPDDR4 device made while the precharge of a read with auto-precharge is pending", breaks="the pending precharge of the copy closes the bank of the original", demo='''
int main() { auto j = spec("lpddr4"); MemSpecLPDDR4 m(j.get<DRAMUtils::MemSpec::MemSpecLPDDR4>()); LPDDR4 a(m, config::SimConfig{}); a.doCoreCommand({10, C::ACT, at(0, 0, 0)}); a.doCoreCommand({60, C::RDA, at(0, 0, 0)});
    LPDDR4 b(a); auto y = b.getWindowStats(100000); auto x = a.getWindowStats(100000); same("active cycles of the copy's bank", y.bank[0].cycles.act, x.bank[0].cycles.act); return done(); }'''),
dict(id="B20", property="L01", cli=True, edits=[("src/cli/lib/DRAMPower/cli/util.cpp", 'if (data.substr(0, 2) == "0x" || data.substr(0, 2) == "0X")', 'if (data.substr(0, 2) == "0x" || data.substr(0, 2) == "X0")')],
 needs="a trace whose data has the prefix 0X", breaks="data with the prefix 0X is refused", demo='''
#include <DRAMPower/cli/util.hpp>
int main() { size_t n = 0; try { auto p = DRAMPowerCLI::util::hexStringToUint8Array("0X1fA0", n); same("bytes", n, 2u); same("first byte", p[0], 0x1f); } catch (const std::exception& e) { ++failures; std::puts(e.what()); } return done(); }'''),
dict(id="B21", property="L02", cli=True, edits=[("src/cli/lib/DRAMPower/cli/run.cpp", "\t// Add rank,device,bank description\n\tfor ( std::size_t r = 0; r < rankcount; r++ ) {\n\t\tfor ( std::size_t d = 0; d < devicecount; d++ ) {\n\t\t\tenergy_offset = r * bankcount * devicecount + d * bankcount;", "\t// Add rank,device,bank description\n\tfor ( std::size_t r = 0; r < rankcount; r++ ) {\n\t\tfor ( std::size_t d = 0; d < devicecount; d++ ) {\n\t\t\tenergy_offset = d * bankcount * rankcount + r * bankcount;")],
 needs="a JSON report of a memory with more than one rank and more than one device", breaks="the bank energies in the report carry the rank and device of another bank", demo='''
#include <DRAMPower/cli/run.hpp>
#include <fstream>
int main() { std::unique_ptr<Dev> d = make("ddr4", [](json_t& j) { j["memarchitecturespec"]["nbrOfRanks"] = 2; j["memarchitecturespec"]["nbrOfDevices"] = 3; }); d->doCoreCommand({10, C::ACT, at(1, 0, 0)});
    auto c = d->calcCoreEnergy(1000); auto i = d->calcInterfaceEnergy(1000); DRAMPowerCLI::jsonFileResult("o.json", d, c, i); std::ifstream f("o.json"); auto j = json_t::parse(f); auto& b = j["CoreEnergy"][c.get_Bank_energy_keyword()]; auto B = b.size() / 6;
    same("rank of the first bank of device 1 of rank 0", b[B]["Rank"].get<int>(), 0); same("device of it", b[B]["Device"].get<int>(), 1); same("rank of the first bank of rank 1", b[3 * B]["Rank"].get<int>(), 1); return done(); }'''),
dict(id="B22", property="L03", cli=True, edits=[("src/cli/lib/DRAMPower/cli/run.cpp", "out = std::ofstream(jsonfile);", "out = std::ofstream(jsonfile, std::ios::app);")],
 needs="a second run with the same output file", breaks="the report is appended to the old one, so the file is no JSON document", demo='''
#include <DRAMPower/cli/run.hpp>
#include <fstream>
int main() { std::unique_ptr<Dev> d = make("ddr4"); auto c = d->calcCoreEnergy(1000); auto i = d->calcInterfaceEnergy(1000); for (int k = 0; k < 2; ++k) DRAMPowerCLI::jsonFileResult("o.json", d, c, i);
    std::ifstream f("o.json"); auto j = json_t::parse(f, nullptr, false); same("the file is one JSON document", !j.is_discarded(), true); return done(); }'''),
dict(id="B23", property="M01", edits=[("memspec/MemSpecDDR5.cpp", "memspec.mempowerspec.iBeta_vpp.value_or(memspec.mempowerspec.ipp0)", "memspec.mempowerspec.iBeta_vpp.value_or(memspec.mempowerspec.ipp2n)")],
 needs="a DDR5 specification without iBeta_vpp whose ipp0 and ipp2n differ", breaks="the default of the precharge current is the idle current", demo='''
int main() { auto j = spec("ddr5"); auto& p = j["mempowerspec"]; p.erase("iBeta_vpp"); p["ipp0"] = 7.5e-3; p["ipp2n"] = 2.5e-3; MemSpecDDR5 m(j.get<DRAMUtils::MemSpec::MemSpecDDR5>());
    close("default of iBeta", m.memPowerSpec[MemSpecDDR5::VoltageDomain::VPP].iBeta, 7.5e-3); return done(); }'''),
dict(id="B24", property="T01", edits=[("command/CmdType.h", 'if (str == "PDXP")\n\t\t\treturn CmdType::PDXP;', 'if (str == "PDXP")\n\t\t\treturn CmdType::PDXA;')],
 needs="the name PDXP of the exit from precharge power-down", breaks="the name is read as the exit from active power-down", demo='''
int main() { same("command of the name PDXP", int(CmdTypeUtil::from_string("PDXP")), int(C::PDXP)); same("PDXA", int(CmdTypeUtil::from_string("PDXA")), int(C::PDXA)); return done(); }'''),
dict(id="B25", property="U01", edits=[("util/dynamic_bitset.h", "if (i_blocks > num_bits) {\n                n += (element & lastelementmask).count();", "if (i_blocks >= num_bits) {\n                n += (element & lastelementmask).count();")],
 needs="a bitset whose size is a multiple of the block size", breaks="the last full block is not counted", demo='''
#include <DRAMPower/util/dynamic_bitset.h>
int main() { for (std::size_t n : {8u, 64u, 128u, 63u}) { util::dynamic_bitset<64> b; for (std::size_t i = 0; i < n; ++i) b.push_back(true); same("ones of a bitset of ones", b.count(), n); } return done(); }'''),
dict(id="B26", property="U02", edits=[("util/cycle_stats.h", "stream.read(reinterpret_cast<char *>(&start), sizeof(start));\n\t\t} else {\n\t\t\tstart.reset();\n\t\t}", "stream.read(reinterpret_cast<char *>(&start), sizeof(start));\n\t\t}")],
 needs="restoring a counter that has no interval into one that has", breaks="the restored counter keeps the open interval it had before", demo='''
#include <DRAMPower/util/cycle_stats.h>
int main() { util::interval_counter<uint64_t> a, b; b.start_interval(5); std::stringstream s; a.serialize(s); b.deserialize(s); same("interval is open", b.is_open(), false); same("count at 100", b.get_count_at(100), 0u); return done(); }'''),
dict(id="B28", property="U05", edits=[("dram/Interface.cpp", "            this->count += virtualtimestamp - this->last_burst.last_load;\n        }\n        this->last_burst.handled = true;\n    }\n    this->disable_timestamp", "            this->count += virtualtimestamp - this->last_burst.last_load;\n        }\n    }\n    this->disable_timestamp")],
 needs="a toggling line switched off with a burst recorded, and on again", breaks="the burst is counted once when the line is switched off and once more afterwards", demo='''
int main() { TogglingHandle h(8, 2, 0.5, 0.5, DRAMUtils::Config::TogglingRateIdlePattern::L); h.incCountBurstLength(10, 16); h.disable(50); h.enable(60); h.incCountBurstLength(100, 16); h.disable(200); same("beats counted", h.getCount(), 32u); return done(); }'''),
dict(id="B29", property="U06", edits=[("util/ImplicitCommandHandler.h", "auto upper = std::upper_bound(queue.begin(), queue.end(),", "auto upper = std::lower_bound(queue.begin(), queue.end(),")],
 needs="two deferred commands with the same time", breaks="deferred commands of the same time are executed in the reverse of the order they were added in", demo='''
int main() { ImplicitCommandHandler<void> h; std::string o; h.addImplicitCommand(5, [&] { o += "a"; }); h.addImplicitCommand(5, [&] { o += "b"; }); h.addImplicitCommand(3, [&] { o += "c"; }); timestamp_t t = 0; h.processImplicitCommandQueue(9, t); same("order of execution is c, a, b", o == "cab", true); return done(); }'''),
dict(id="B30", property="U07", edits=[("util/dbi.h", "std::size_t start = m_lastBurst.chunks() - getChunksPerWidth().value();", "std::size_t start = 0;")],
 needs="inversion enabled, a burst that inverts an earlier beat but not the last, and an idle gap", breaks="the inversion line is returned to idle several times, also for beats that are over", demo='''
#include <DRAMPower/util/dbi.h>
int main() { using E = util::DBI<uint8_t, 1, util::PinState::L, util::StaticDBI>; std::string o; E e(8, 8, [&](timestamp_t l, timestamp_t, std::size_t chunk, bool inv, bool) { o += std::to_string(l) + (inv ? "+" : "-") + std::to_string(chunk) + " "; }, true);
    uint8_t a[2] = {0xFF, 0x00}; e.updateDBI(10, 16, a, false); o.clear(); e.dispatchResetCallback(100); std::printf("# %s\\n", o.c_str()); same("the line whose last beat was not inverted stays as it is", o.empty(), true); return done(); }'''),
dict(id="B31", property="U03", edits=[("util/extension_manager.h", "        const HookValue_t supportedHooks = static_cast<HookValue_t>(hookExt->getSupportedHooks());\n        for (std::size_t i = 0; i < m_hookCache.size(); ++i) {", "        const HookValue_t supportedHooks = static_cast<HookValue_t>(hookExt->getSupportedHooks());\n        for (std::size_t i = 0; i + 1 < m_hookCache.size(); ++i) {")],
 needs="an extension for the hook with the highest bit", breaks="the hook of the highest bit is never delivered", demo='''
#include <DRAMPower/util/extension_manager.h>
#include <DRAMPower/util/extension_base.h>
enum class H : uint8_t { None = 0, A = 1, Z = 128 };
struct B : util::extension_manager::ExtensionWithHooks<H>, util::Serialize, util::Deserialize { int calls = 0; void serialize(std::ostream&) const override {} void deserialize(std::istream&) override {} };
struct X : B { H getSupportedHooks() const override { return H(129); } };
int main() { util::extension_manager::ExtensionManagerWithHooks<B, H> m; m.registerExtension<X>(); m.callHook(H::A, [](B& b) { ++b.calls; }); m.callHook(H::Z, [](B& b) { ++b.calls; }); m.withExtension<X>([](X& x) { same("calls of the two hooks", x.calls, 2); }); return done(); }'''),
]
