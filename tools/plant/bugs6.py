# Fourth round: properties that had few planted bugs.
BUGS = [
dict(id="B82", property="U03", edits=[("util/extension_manager.h", "    constexpr static std::size_t m_numHooks = std::numeric_limits<HookValue_t>::digits;", "    constexpr static std::size_t m_numHooks = std::min(std::numeric_limits<HookValue_t>::digits, 32);")],
 needs="an interface with more than 32 hooks", breaks="the hooks above bit 31 are never delivered", demo='''
#include <DRAMPower/util/extension_manager.h>
#include <DRAMPower/util/extension_base.h>
enum class H : uint64_t { a = 1, b = uint64_t(1) << 40 }; inline H operator|(H x, H y) { return H(uint64_t(x) | uint64_t(y)); }
struct Base : util::extension_manager::ExtensionWithHooks<H>, util::Serialize, util::Deserialize { H getSupportedHooks() const override { return H::a | H::b; } void serialize(std::ostream&) const override {} void deserialize(std::istream&) override {} int calls = 0; };
struct Ext : Base {};
int main() { util::extension_manager::ExtensionManagerWithHooks<Base, H> m; m.registerExtension<Ext>(); m.callHook(H::a, [](Base& e) { ++e.calls; }); m.callHook(H::b, [](Base& e) { ++e.calls; }); int got = 0; m.withExtension<Ext>([&](Ext& e) { got = e.calls; }); same("calls", got, 2); return done(); }'''),
dict(id="B83", property="C08", edits=[("standards/ddr5/DDR5Core.cpp", "    auto earliestPossibleEntry = this->earliestPossiblePowerDownEntryTime(rank);\n    auto entryTime = std::max(timestamp, earliestPossibleEntry);\n\n    m_implicitCommandHandler.addImplicitCommand(entryTime, [rank_idx, entryTime](DDR5Core &self) {\n        auto& rank = self.m_ranks[rank_idx];\n        rank.cycles.powerDownPre", "    auto earliestPossibleEntry = this->earliestPossiblePowerDownEntryTime(m_ranks.front());\n    earliestPossibleEntry = std::max(earliestPossibleEntry, this->earliestPossiblePowerDownEntryTime(rank));\n    auto entryTime = std::max(timestamp, earliestPossibleEntry);\n\n    m_implicitCommandHandler.addImplicitCommand(entryTime, [rank_idx, entryTime](DDR5Core &self) {\n        auto& rank = self.m_ranks[rank_idx];\n        rank.cycles.powerDownPre")],
 needs="DDR5 with two ranks: power-down of the second while the first is refreshed", breaks="the second rank waits for the first", demo='''
int main() { auto d = make("ddr5", [](json_t& j) { j["memarchitecturespec"]["nbrOfRanks"] = 2; }); d->doCoreCommand({100, C::REFA, at(0, 0, 0)}); d->doCoreCommand({110, C::PDEP, at(1, 0, 0)}); same("precharge power-down of rank 1", d->getWindowStats(9000).rank_total[1].cycles.powerDownPre, 9000u - 110u); return done(); }'''),
dict(id="B84", property="S03", edits=[("data/stats.h", "std::size_t min_rank_total = std::min(rank_total.size(), rhs.rank_total.size());", "std::size_t min_rank_total = std::min(rank_total.size(), min_bank);")],
 needs="records with more ranks than banks, or one side without banks", breaks="rank totals are not added", demo='''
int main() { SimulationStats a, b; a.rank_total.resize(2); b.rank_total.resize(2); b.rank_total[1].cycles.act = 5; a += b; same("ranks", a.rank_total.size(), 2u); same("active cycles", a.rank_total[1].cycles.act, 5u); return done(); }'''),
dict(id="B86", property="L03", cli=True, edits=[("src/cli/lib/DRAMPower/cli/run.cpp", "catch (std::exception &e)\n			{\n                return false;", "catch (std::out_of_range &e)\n			{\n                return false;")],
 needs="a trace with a malformed payload", breaks="the tool dies of an uncaught exception", demo='''
#include <DRAMPower/cli/run.hpp>
int main() { { std::ofstream f("t.csv"); f << "0,WR,0,0,0,0,0,0xGG\\n"; } std::vector<std::pair<Command, std::unique_ptr<uint8_t[]>>> l; bool ok = true, escaped = false; try { ok = DRAMPowerCLI::parse_command_list("t.csv", l); } catch (const std::exception&) { escaped = true; } same("exception escapes", escaped, false); same("accepted", ok, false); return done(); }'''),
dict(id="B87", property="U06", edits=[("util/ImplicitCommandHandler.h", "            i_implicitCommand(context);\n            last_command_time = i_timestamp;", "            i_implicitCommand(context);\n            last_command_time = std::max(last_command_time, i_timestamp);")],
 needs="a queue with a context that is processed for a caller with a later last command time", breaks="the time of the deferred command is not reported", demo='''
#include <DRAMPower/util/ImplicitCommandHandler.h>
int main() { struct X { int n = 0; } x; ImplicitCommandHandler<X> h; h.addImplicitCommand(5, [](X& y) { ++y.n; }); timestamp_t last = 9; h.processImplicitCommandQueue(x, 10, last); same("runs", x.n, 1); same("time", last, 5u); return done(); }'''),
dict(id="B88", property="T01", edits=[("command/CmdType.h", 'if (str == "PRESB")', 'if (str.substr(0, 5) == "PRESB")')],
 needs="a text that begins with PRESB", breaks="it is read as a same-bank precharge", demo='''
int main() { same("PRESBX", int(CmdTypeUtil::from_string("PRESBX")), int(C::NOP)); same("PRESB", int(CmdTypeUtil::from_string("PRESB")), int(C::PRESB)); return done(); }'''),
dict(id="B89", property="I04", edits=[("standards/lpddr6/LPDDR6Interface.cpp", "            length = m_memSpec.burstLength;\n", "            length = std::max<std::size_t>(m_memSpec.burstLength, m_patternHandler.getEncoder().getExtraData().currentBurstLength);\n")],
 needs="LPDDR6 with toggling rates: a transfer without payload after a double burst with one", breaks="the transfer counts as a double burst as well", demo='''
int main() { auto j = spec("lpddr6"); j["memarchitecturespec"]["burstLength"] = 24; config::SimConfig c; c.toggleRateDefinition = DRAMUtils::Config::ToggleRateDefinition{0.5, 0.5, 1.0, 1.0, DRAMUtils::Config::TogglingRateIdlePattern::L, DRAMUtils::Config::TogglingRateIdlePattern::L}; MemSpecLPDDR6 m(j.get<DRAMUtils::MemSpec::MemSpecLPDDR6>()); LPDDR6 d(m, c); std::vector<uint8_t> z(64, 0);
    d.doInterfaceCommand({10, C::WR, at(0, 0, 0), z.data(), 512}); d.doInterfaceCommand({100, C::WR, at(0, 0, 0), nullptr, 0}); auto ones = [&](timestamp_t t) { return d.getWindowStats(t).togglingStats.write.ones; }; same("high slots of the second transfer", ones(500) - ones(100), uint64_t(m.burstLength * m.bitWidth * m.numberOfDevices)); return done(); }'''),
dict(id="B90", property="L04", cli=True, edits=[("src/cli/lib/DRAMPower/cli/run.cpp", "	} catch (std::exception &e) {\n		return false;", "	} catch (std::out_of_range &e) {\n		return false;")],
 needs="a trace with a same-bank refresh of a bank the memory does not have", breaks="the tool dies of an uncaught exception", flags="-DNDEBUG", demo='''
#include <DRAMPower/cli/run.hpp>
int main() { auto d = make("ddr5"); std::vector<std::pair<Command, std::unique_ptr<uint8_t[]>>> l; l.emplace_back(Command{10, C::REFSB, at(0, 0, 4096)}, nullptr); bool ok = true, escaped = false; try { ok = DRAMPowerCLI::runCommands(d, l); } catch (const std::exception&) { escaped = true; } same("exception escapes", escaped, false); same("accepted", ok, false); return done(); }'''),
dict(id="B91", property="I05", edits=[("util/dbi.h", "m_end = timestamp + (n_bits / m_width.value());", "m_end = timestamp + m_burstLength;")],
 needs="inversion and a transfer that is not as long as the specified burst", breaks="the inversion line returns to idle at the wrong time", demo='''
#include <DRAMPower/util/dbi.h>
int main() { util::DBI<uint8_t, 1, util::PinState::L, util::StaticDBI> e(8, 16, nullptr, true); std::vector<uint8_t> d(8, 0xff); e.updateDBI(0, 64, d.data(), true); same("end of the burst", *e.getLastBurstEnd(true), 8u); return done(); }'''),
dict(id="B92", property="I08", edits=[("standards/lpddr6/LPDDR6Interface.cpp", "    uint32_t dbival = 0;", "    uint16_t dbival = 0;")],
 needs="a double LPDDR6 burst with inversion in its second half", breaks="the inversion flags of the second half are not transferred", demo='''
#include <DRAMPower/util/extensions.h>
int main() { auto run = [](bool on) { auto d = make("lpddr6"); if (on) static_cast<LPDDR6&>(*d).getExtensionManager().withExtension<extensions::DBI>([](extensions::DBI& e) { e.enable(0, true); }); std::vector<uint8_t> z(64, 0); for (std::size_t i = 32; i < 64; ++i) z[i] = 0xff; d->doInterfaceCommand({10, C::WR, at(0, 0, 0), z.data(), 512}); return d->getWindowStats(500).writeBus.ones; }; same("ones with inversion: the flags of the inverted half", run(true), 16u); return done(); }'''),
dict(id="B93", property="C03", edits=[("standards/lpddr4/LPDDR4Core.cpp", "    // Issue implicit refresh\n    handleRefAll(rank_idx, timestamp);", "    // Issue implicit refresh\n    auto& refreshed = m_ranks[rank_idx];\n    for (std::size_t bank_idx = 0; bank_idx < refreshed.banks.size(); ++bank_idx) {\n        handleRefreshOnBank(rank_idx, bank_idx, timestamp, m_memSpec.tRFC, refreshed.banks.front().counter.refAllBank);\n    }\n    refreshed.endRefreshTime = timestamp + m_memSpec.tRFC;")],
 needs="LPDDR4: a self-refresh entry", breaks="the implicit refresh is counted for the first bank only", demo='''
int main() { auto d = make("lpddr4"); d->doCoreCommand({100, C::SREFEN, at(0, 0, 0)}); auto s = d->getWindowStats(9000); same("refreshes of bank 0", s.bank[0].counter.refAllBank, 1u); same("refreshes of bank 3", s.bank[3].counter.refAllBank, 1u); return done(); }'''),
dict(id="B94", property="R01", edits=[("util/dbi.h", "        if (lastInvert.size() < n_chunks) {\n            lastInvert.resize(n_chunks, false);", "        if (lastInvert.empty()) {\n            lastInvert.resize(n_chunks, false);")],
 needs="inversion and a transfer that is longer than the first one of its direction", breaks="inversion flags are written behind the end of their buffer", flags="-D_GLIBCXX_ASSERTIONS", demo='''
#include <DRAMPower/util/dbi.h>
int main() { util::DBI<uint8_t, 1, util::PinState::L, util::StaticDBI> e(std::nullopt, 16, nullptr, true); std::vector<uint8_t> d(4096, 0xff); e.updateDBI(0, 8 * 32, d.data(), true); e.updateDBI(100, 8 * 4096, d.data(), true); same("flags", e.getInversionStateRead().size(), 4096u); return done(); }'''),
dict(id="B95", property="S01", edits=[("dram/Interface.cpp", "    stream.read(reinterpret_cast<char*>(&handled), sizeof(handled));\n", "    stream.read(reinterpret_cast<char*>(&handled), sizeof(handled));\n    handled = handled || 0 == last_load;\n")],
 needs="a checkpoint after a transfer at cycle 0 with toggling rates", breaks="the restored device forgets the transfer", demo='''
#include <DRAMPower/dram/Interface.h>
int main() { auto make = [] { return TogglingHandle(8, 1, 0.5, 1.0, DRAMUtils::Config::TogglingRateIdlePattern::L, true); }; auto h = make(); h.incCountBurstLength(0, 16); std::stringstream s; h.serialize(s); auto r = make(); r.deserialize(s); same("high slots", r.get_stats(100).ones, h.get_stats(100).ones); return done(); }'''),
dict(id="B96", property="M01", edits=[("memspec/MemSpecLPDDR4.cpp", "iBeta_vdd2.value_or(memspec.mempowerspec.idd02)", "iBeta_vdd2.value_or(memspec.mempowerspec.iBeta_vdd1.value_or(memspec.mempowerspec.idd02))")],
 needs="an LPDDR4 specification that gives iBeta for the first supply only", breaks="the default of the second supply is taken from the first", demo='''
int main() { auto j = spec("lpddr4"); auto& p = j["mempowerspec"]; p["iBeta_vdd1"] = 0.123; p.erase("iBeta_vdd2"); p["idd02"] = 0.045; MemSpecLPDDR4 m(j.get<DRAMUtils::MemSpec::MemSpecLPDDR4>()); close("iBeta of vdd2", m.memPowerSpec[1].iBeta, 0.045 / (m.memPowerSpec[1].iDD0X / 0.045 == 1 ? 1 : 0.045 / m.memPowerSpec[1].iDD0X)); return done(); }'''),
dict(id="B97", property="U01", edits=[("util/dynamic_bitset.h", "        for (std::size_t i = 0; i < this->size(); ++i) {\n            if (this->operator[](i) != rhs[i]) {", "        for (std::size_t i = 0; i < this->size() / blocksize_rhs * blocksize_rhs; ++i) {\n            if (this->operator[](i) != rhs[i]) {")],
 needs="two sets of different block sizes that differ in the last partial block", breaks="they compare equal", demo='''
#include <DRAMPower/util/dynamic_bitset.h>
int main() { util::dynamic_bitset<32> a(40, 0); util::dynamic_bitset<64> b(40, 0); b.set(39, true); same("equal", a == b, false); return done(); }'''),
dict(id="B98", property="S05", edits=[("util/clock.h", "        stats.ones = duration * dataRate / 2;\n        stats.zeroes = duration * dataRate / 2;", "        stats.ones = static_cast<uint32_t>(duration * dataRate) / 2;\n        stats.zeroes = static_cast<uint32_t>(duration * dataRate) / 2;")],
 needs="a clock that runs for more than 2^31 cycles without a stop", breaks="the clock counts wrap around", demo='''
int main() { auto d = make("ddr5"); uint64_t t = uint64_t(1) << 33; same("ones of the clock", d->getWindowStats(t).clockStats.ones, 2 * t); return done(); }'''),
]
