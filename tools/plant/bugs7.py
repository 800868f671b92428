# Fifth round: the other names and the less used halves.
BUGS = [
dict(id="B99", property="S02", edits=[("dram/dram_base.h", "    void doCoreInterfaceCommand(const Command& command) {\n        doCommand(command);", "    void doCoreInterfaceCommand(const Command& command) {\n        doCoreCommand(command);")],
 needs="a whole command given under its deprecated name", breaks="the interface half is dropped", demo='''
int main() { auto a = make("ddr4"), b = make("ddr4"); a->doCommand({10, C::ACT, at(0, 0, 0, 5)}); b->doCoreInterfaceCommand({10, C::ACT, at(0, 0, 0, 5)}); same("ones on the command bus", b->getWindowStats(20).commandBus.ones, a->getWindowStats(20).commandBus.ones); return done(); }'''),
dict(id="B100", property="M01", edits=[("memspec/MemSpecDDR4.cpp", "memPowerSpec[VPP].iXX5X      = memspec.mempowerspec.ipp5F2;", "memPowerSpec[VPP].iXX5X      = memspec.mempowerspec.ipp5F4;")],
 needs="a DDR4 specification of refresh mode 2 whose ipp5F2 and ipp5F4 differ", breaks="the refresh current of the second supply is that of mode 4", demo='''
int main() { auto j = spec("ddr4"); j["memarchitecturespec"]["RefMode"] = 2; auto& p = j["mempowerspec"]; p["ipp5F2"] = 7.5e-3; p["ipp5F4"] = 2.5e-3; MemSpecDDR4 m(j.get<DRAMUtils::MemSpec::MemSpecDDR4>());
    close("refresh current", m.memPowerSpec[MemSpecDDR4::VoltageDomain::VPP].iXX5X, 7.5e-3); return done(); }'''),
dict(id="B101", property="I07", edits=[("standards/lpddr4/interface_calculation_LPDDR4.cpp", "calcStaticTermination(impedances_.rdq_termination, stats.read, impedances_.rdq_R_eq,", "calcStaticTermination(impedances_.wdq_termination, stats.read, impedances_.rdq_R_eq,")],
 needs="LPDDR4 with toggling rates and termination of only one direction", breaks="the read data lines are terminated as the write ones", demo='''
#include <DRAMPower/standards/lpddr4/interface_calculation_LPDDR4.h>
int main() { auto j = spec("lpddr4"); MemSpecLPDDR4 m(j.get<DRAMUtils::MemSpec::MemSpecLPDDR4>()); m.memImpedanceSpec.wdq_termination = false; m.memImpedanceSpec.rdq_termination = true; InterfaceCalculation_LPDDR4 c(m);
    SimulationStats s; s.togglingStats.read.ones = 1000; s.togglingStats.read.zeroes = 1000; same("static energy of the read lines is there", c.calculateEnergy(s).dram.staticEnergy > 0, true); return done(); }'''),
dict(id="B102", property="U01", edits=[("util/sub_bitset.h", "        result.buffer = ~buffer;\n        result.buffer &= mask;", "        result.buffer = ~buffer;\n        result.mask = ~(~mask << 1);")],
 needs="the complement of a sub set narrower than its storage", breaks="bits above the width are set in the complement", demo='''
#include <DRAMPower/util/sub_bitset.h>
int main() { util::sub_bitset<16> s(5, 0); same("ones of the complement", (~s).count(), 5u); return done(); }'''),
dict(id="B103", property="L01", cli=True, edits=[("src/cli/lib/DRAMPower/cli/csv.hpp", "this->mmap_pos -= (length - remainder);", "this->mmap_pos -= (length - remainder) & 0x3f;")],
 needs="a trace of more than 10 MB with a row of more than 64 characters across the border", breaks="the row at the border is cut", demo='''
#include <DRAMPower/cli/run.hpp>
int main() { { std::ofstream f("t.csv"); std::string p(128, 'a'); for (int i = 0; i < 75000; ++i) f << i * 10 << ",WR,0,0,0,0,0,0x" << p << "\\n"; } std::vector<std::pair<Command, std::unique_ptr<uint8_t[]>>> l; bool ok = DRAMPowerCLI::parse_command_list("t.csv", l);
    std::remove("t.csv"); same("read", ok, true); same("rows", l.size(), 75000u); for (std::size_t i = 0; i < l.size() && i < 75000; ++i) if (l[i].first.timestamp != i * 10) { same("time", l[i].first.timestamp, i * 10); break; } return done(); }'''),
]
