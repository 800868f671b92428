// Reading the memory specification: omitted parameters, refresh modes, architectures, parameters that must not matter.
#include "statcmp.hpp"
#include <DRAMPower/standards/ddr4/DDR4.h>
#include <DRAMPower/standards/ddr5/DDR5.h>
#include <DRAMPower/standards/lpddr4/LPDDR4.h>
#include <DRAMPower/standards/lpddr5/LPDDR5.h>
#include <DRAMPower/standards/lpddr6/LPDDR6.h>
using namespace vf;
static void arch(const Spec& base, Dram& d) { auto p = params(base); auto c = d.getCLIArchitectureConfig(); eq(c.rankCount, p.ranks, "reported ranks"); eq(c.deviceCount, p.devices, "reported devices"); eq(c.bankCount, p.banks, "reported banks"); }
// A history on the plain document and on an equivalent one.
static void both(Src& s, const Spec& a, const Spec& b, const std::string& what, bool core = true, bool ifc = true) {
    std::optional<Toggle> tg; if (s.chance(1, 4)) tg = gen_toggle(s); IfRun r(s, a, tg, {}, !tg); r.g.now = 1; auto e = make_dram(b, tg); arch(a, *r.d); arch(a, *e); unsigned n = 2 + s.below(40); for (unsigned i = 0; i < n; ++i) r.step(); for (auto& k : r.g.tr) e->doCommand(conv(k));
    uint64_t T = std::max(r.g.now, r.busyUntil()) + r.g.delta(); sameStats(r.d->getWindowStats(T), e->getWindowStats(T), what); eq(r.d->getLastCommandTime(), e->getLastCommandTime(), what + ": time of the last command");
    if (core) sameEnergy(r.d->calcCoreEnergy(T), e->calcCoreEnergy(T), what);
    if (ifc) { IfE p = conv(r.d->calcInterfaceEnergy(T)), q = conv(e->calcInterfaceEnergy(T)); eq(p.cs, q.cs, what + ": controller static energy"); eq(p.cd, q.cd, what + ": controller dynamic energy"); eq(p.ds, q.ds, what + ": device static energy"); eq(p.dd, q.dd, what + ": device dynamic energy"); }
    s.interesting(r.g.tr.size() > 3);
}
static std::vector<std::pair<std::string, std::string>> betas(Std s) {   // optional current and the current it defaults to
    if (s == Std::DDR4 || s == Std::DDR5) return {{"iBeta_vdd", "idd0"}, {"iBeta_vpp", "ipp0"}};
    std::vector<std::pair<std::string, std::string>> v; for (auto& x : power_suffixes(s)) v.emplace_back("iBeta_vdd" + x, "idd0" + x); return v;
}
static void defaults(Src& s) {
    Spec a = gen_ispec(s); auto& P = a.j["mempowerspec"]; std::string did; unsigned tries = 0;
    for (auto& kv : betas(a.std)) if (s.chance(1, 2)) P.erase(kv.first);
    switch (s.below(3)) { case 0: a.j.erase("bankwisespec"); break; case 1: if (a.j.contains("bankwisespec")) a.j["bankwisespec"].erase("factRho"); break; default: break; }
    if (s.chance(1, 3)) a.j["memarchitecturespec"]["nbrOfDevices"] = 0;
    if (a.std == Std::DDR5 && s.chance(1, 2)) a.j.erase("dataratespec");
    Spec b = a; auto& Q = b.j["mempowerspec"]; auto& A = b.j["memarchitecturespec"];
    auto note = [&](const std::string& t) { did += t + "; "; };
    while (did.empty() && tries++ < 8) {
        for (auto& kv : betas(a.std)) if (!Q.contains(kv.first) && s.chance(2, 3)) { if (s.chance(1, 3)) Q[kv.first] = nullptr; else Q[kv.first] = Q[kv.second]; note(kv.first + " given as its default"); }
        if (!a.j.contains("bankwisespec")) { if (s.chance(2, 3)) { b.j["bankwisespec"] = json::object(); if (s.chance(1, 2)) b.j["bankwisespec"]["factRho"] = 1.0; note("bank-wise parameters given"); } }
        else if (!a.j["bankwisespec"].contains("factRho") && s.chance(2, 3)) { b.j["bankwisespec"]["factRho"] = 1.0; note("factRho given"); }
        if (A["nbrOfDevices"] == 0 && s.chance(2, 3)) { A["nbrOfDevices"] = 1; note("one device"); }
        if (a.std == Std::DDR5 && !a.j.contains("dataratespec") && s.chance(2, 3)) { b.j["dataratespec"] = {{"ca_bus_rate", 2}, {"dq_bus_rate", 2}, {"dqs_bus_rate", 2}}; note("data rates given"); }
        if (s.chance(1, 3)) { b.j["memoryId"] = "another name"; A["nbrOfRows"] = s.range(1, 1 << 20); A["nbrOfColumns"] = s.range(1, 4096); note("other name and size"); }
    }
    s << "  " << did << "\n"; both(s, a, b, "explicit defaults (" + did + ")");
}
static void refmode(Src& s) {
    SpecOpt so; so.stds = {Std::DDR4, Std::DDR5}; Spec a = gen_ispec(s, so), b = a; int m = a.j["memarchitecturespec"]["RefMode"].get<int>(); bool d4 = a.std == Std::DDR4; std::string what;
    if (m == 1 && s.chance(1, 2)) { b.j["memarchitecturespec"]["RefMode"] = s.pick<int>({-1, 0, 3, d4 ? 8 : 4}); what = "unknown refresh mode"; }
    else { what = "parameters of other refresh modes changed"; auto& T = b.j["memtimingspec"]; auto& P = b.j["mempowerspec"];
        struct M { int m; const char* t; const char* c; }; std::vector<M> v = d4 ? std::vector<M>{{1, "RFC1", "5B"}, {2, "RFC2", "5F2"}, {4, "RFC4", "5F4"}} : std::vector<M>{{1, "RFC1_slr", "5b"}, {2, "RFC2_slr", "5f"}};
        for (auto& k : v) if (k.m != m) { T[k.t] = s.range(1, 2000); for (const char* d : {"idd", "ipp"}) P[std::string(d) + k.c] = s.real(0, 900); } }
    s << "  " << what << "\n"; both(s, a, b, what);
}
static void banks(Src& s) {
    SpecOpt so; so.stds = {Std::LPDDR5}; Spec a = gen_ispec(s, so), b = a; auto& A = b.j["memarchitecturespec"]; std::string what;
    if (a.a("nbrOfBankGroups") == 1 && s.chance(1, 2)) { A["nbrOfBankGroups"] = 0; what = "no bank groups"; }
    else { a.j["memarchitecturespec"]["nbrOfBanks"] = 16; a.j["memarchitecturespec"]["nbrOfBankGroups"] = 1; switch (s.below(4)) { case 0: A["nbrOfBanks"] = 16; A["nbrOfBankGroups"] = s.pick<int>({2, 3, 8, 16}); break; case 1: A["nbrOfBanks"] = 8; A["nbrOfBankGroups"] = s.pick<int>({2, 4, 8}); break; case 2: A["nbrOfBanks"] = s.pick<int>({4, 32, 12, 1, 64}); A["nbrOfBankGroups"] = 1 + s.below(4); break; default: A["nbrOfBanks"] = s.range(17, 100); A["nbrOfBankGroups"] = s.below(5); } what = "unsupported architecture " + A["nbrOfBanks"].dump() + "|" + A["nbrOfBankGroups"].dump(); }
    s << "  " << what << "\n"; auto* old = std::cout.rdbuf(nullptr); try { both(s, a, b, what); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old);
}
// Supply currents leave the interface energy alone, line impedances and the I/O supply leave the core energy alone.
static void separate(Src& s) {
    Spec a = gen_ispec(s), b = a; bool core = s.chance(1, 2);
    if (core) { for (auto& kv : b.j["mempowerspec"].items()) if (kv.key() != "vddq" && s.chance(2, 3)) kv.value() = s.real(0, 50); if (a.j.contains("bankwisespec") && s.chance(1, 2)) b.j["bankwisespec"]["factRho"] = s.real(0, 1); }
    else { b.j["mempowerspec"]["vddq"] = s.real(0.2, 3); for (auto& g : signals(a.std)) { b.j["memimpedancespec"][g + "_termination"] = s.chance(1, 2); b.j["memimpedancespec"][g + "_R_eq"] = s.real(10, 500); b.j["memimpedancespec"][g + "_dyn_E"] = s.real(0.1, 50) * 1e-12; } }
    std::string what = core ? "supply currents and voltages changed" : "impedances and the I/O supply changed"; s << "  " << what << "\n"; both(s, a, b, what, !core, core);
}
template <typename D, typename M, typename U> static std::unique_ptr<Dram> from(const DRAMUtils::MemSpec::MemSpecVariant& v) { return std::make_unique<D>(M::from_memspec(v), DRAMPower::config::SimConfig{}); }
static void variants(Src& s) {
    namespace U = DRAMUtils::MemSpec; using namespace DRAMPower; Spec a = gen_ispec(s); U::MemSpecVariant v = a.j.get<U::MemSpecVariant>(); std::vector<std::unique_ptr<Dram> (*)(const U::MemSpecVariant&)> f{from<DDR4, MemSpecDDR4, U::MemSpecDDR4>, from<DDR5, MemSpecDDR5, U::MemSpecDDR5>, from<LPDDR4, MemSpecLPDDR4, U::MemSpecLPDDR4>, from<LPDDR5, MemSpecLPDDR5, U::MemSpecLPDDR5>, from<LPDDR6, MemSpecLPDDR6, U::MemSpecLPDDR6>};
    std::unique_ptr<Dram> d; for (int i = 0; i < 5; ++i) { bool threw = false; try { auto x = f[i](v); if (i == int(a.std)) d = std::move(x); } catch (const std::bad_variant_access&) { threw = true; } eq(threw, i != int(a.std), std::string("specification read as ") + name(Std(i)) + " rejected"); }
    IfRun r(s, a, std::nullopt, {}); r.g.now = 1; unsigned n = 2 + s.below(30); for (unsigned i = 0; i < n; ++i) r.step(); for (auto& k : r.g.tr) d->doCommand(conv(k)); arch(a, *d); uint64_t T = std::max(r.g.now, r.busyUntil()) + r.g.delta(); sameDevice(*r.d, *d, T, "specification taken from a variant"); s.interesting(r.g.tr.size());
}
// Every parameter of the document is found under its own name.
struct Doc {
    const json &A, &T, &P; void n(uint64_t got, const char* key, const char* what) const { eq(got, T.at(key).get<uint64_t>(), std::string(what) + " is " + key); } void d(double got, const std::string& key, const std::string& what) const { eq(got, P.at(key).get<double>(), what + " is " + key); }
    void beta(double got, const std::string& key, const std::string& other, const std::string& what) const { d(got, P.contains(key) && !P[key].is_null() ? key : other, what); }
    template <typename M> void common(const M& m, Std std) const {
        eq(m.numberOfBanks, A["nbrOfBanks"].get<uint64_t>(), "banks"); eq(m.numberOfBankGroups, A["nbrOfBankGroups"].get<uint64_t>(), "bank groups"); eq(m.numberOfRanks, A["nbrOfRanks"].get<uint64_t>(), "ranks"); eq(m.numberOfDevices, std::max<uint64_t>(1, A["nbrOfDevices"].get<uint64_t>()), "devices");
        eq(m.numberOfRows, A["nbrOfRows"].get<uint64_t>(), "rows"); eq(m.numberOfColumns, A["nbrOfColumns"].get<uint64_t>(), "columns"); eq(m.burstLength, A["burstLength"].get<uint64_t>(), "burst length"); eq(m.dataRate, A["dataRate"].get<uint64_t>(), "data rate"); eq(m.bitWidth, A["width"].get<uint64_t>(), "width");
        eq(m.memoryType, std::string(name(std)), "memory type"); eq(m.memTimingSpec.tCK, T["tCK"].get<double>(), "tCK"); n(m.memTimingSpec.tRAS, "RAS", "tRAS"); n(m.memTimingSpec.tWL, "WL", "tWL"); n(m.memTimingSpec.tWR, "WR", "tWR"); eq(m.vddq, P["vddq"].get<double>(), "vddq"); }
    template <typename M> void per(const M& m) const { eq(m.banksPerGroup, m.numberOfBanks / m.numberOfBankGroups, "banks per group"); }
    template <typename M> void offsets(const M& m, const Par& p) const { eq(m.prechargeOffsetRD, p.offRD, "precharge offset of reads"); eq(m.prechargeOffsetWR, p.offWR, "precharge offset of writes"); }
    template <typename V> void xx(const V& v, const std::string& i, const std::string& vdd, const std::string& r5) const {
        d(v.vXX, vdd, "vXX"); d(v.iXX0, i + "0", "iXX0"); d(v.iXX2N, i + "2n", "iXX2N"); d(v.iXX3N, i + "3n", "iXX3N"); d(v.iXX2P, i + "2p", "iXX2P"); d(v.iXX3P, i + "3p", "iXX3P"); d(v.iXX4R, i + "4r", "iXX4R"); d(v.iXX4W, i + "4w", "iXX4W"); d(v.iXX6N, i + "6n", "iXX6N"); d(v.iXX5X, i + r5, "iXX5X"); beta(v.iBeta, "iBeta_" + vdd, i + "0", "iBeta"); }
    template <typename V> void dd(const V& v, const std::string& x) const {
        d(v.vDDX, "vdd" + x, "vDDX"); d(v.iDD0X, "idd0" + x, "iDD0X"); d(v.iDD2NX, "idd2n" + x, "iDD2NX"); d(v.iDD3NX, "idd3n" + x, "iDD3NX"); d(v.iDD2PX, "idd2p" + x, "iDD2PX"); d(v.iDD3PX, "idd3p" + x, "iDD3PX"); d(v.iDD4RX, "idd4r" + x, "iDD4RX"); d(v.iDD4WX, "idd4w" + x, "iDD4WX"); d(v.iDD5X, "idd5" + x, "iDD5X"); d(v.iDD6X, "idd6" + x, "iDD6X"); beta(v.iBeta, "iBeta_vdd" + x, "idd0" + x, "iBeta"); }
};
static void fieldsOf(Src& s) {
    namespace U = DRAMUtils::MemSpec; using namespace DRAMPower; Spec a = gen_ispec(s); auto& A = a.j["memarchitecturespec"]; A["nbrOfRows"] = s.range(1, 1 << 20); A["nbrOfColumns"] = s.range(1, 1 << 14); if (s.chance(1, 4)) a.j["memoryId"] = "part " + std::to_string(s.below(1000));
    if (s.chance(1, 3)) { auto& T = a.j["memtimingspec"]; for (auto& kv : T.items()) if (kv.value().is_number_integer() && kv.key() != "WCK2CK") kv.value() = s.range(0, s.chance(1, 4) ? (1ull << 33) : 5000); }
    Doc k{A, a.j["memtimingspec"], a.j["mempowerspec"]}; auto p = params(a); double rho = a.rho(); bool copied = s.chance(1, 3); s.interesting(2); s << "  " << k.T.dump() << "\n";
    auto with = [&](auto m0, auto&& f) { auto m = m0; if (copied) { auto x = std::move(m0); m = x; } k.common(m, a.std); eq(m.memoryId, a.j["memoryId"].get<std::string>(), "memory id"); k.offsets(m, p); eq(m.bwParams.bwPowerFactRho, rho, "factRho"); f(m); };
    switch (a.std) {
    case Std::DDR4: with(MemSpecDDR4(a.j.get<U::MemSpecDDR4>()), [&](auto& m) { auto q = p; k.n(m.memTimingSpec.tRCD, "RCD", "tRCD"); k.n(m.memTimingSpec.tRP, "RP", "tRP"); k.n(m.memTimingSpec.tRTP, "RTP", "tRTP"); k.n(m.memTimingSpec.tAL, "AL", "tAL"); eq(m.memTimingSpec.tRFC, q.tRFCab, "tRFC"); eq(m.memTimingSpec.tBurst, p.BL / p.DR, "tBurst");
        auto r = A["RefMode"].get<int>(); std::string c = r == 2 ? "5F2" : r == 4 ? "5F4" : "5B"; eq(m.memPowerSpec.size(), 2u, "voltage domains"); k.xx(m.memPowerSpec[0], "idd", "vdd", c); k.xx(m.memPowerSpec[1], "ipp", "vpp", c); auto& Q = a.j["prepostamble"]; auto& x = m.prePostamble;
        for (auto& f : std::initializer_list<std::pair<const char*, double>>{{"read_zeroes", x.read_zeroes}, {"write_zeroes", x.write_zeroes}, {"read_ones", x.read_ones}, {"write_ones", x.write_ones}, {"read_zeroes_to_ones", x.read_zeroes_to_ones}, {"write_zeroes_to_ones", x.write_zeroes_to_ones}, {"write_ones_to_zeroes", x.write_ones_to_zeroes}, {"read_ones_to_zeroes", x.read_ones_to_zeroes}, {"readMinTccd", x.readMinTccd}, {"writeMinTccd", x.writeMinTccd}}) eq(f.second, Q[f.first].get<double>(), f.first); }); break;
    case Std::DDR5: with(MemSpecDDR5(a.j.get<U::MemSpecDDR5>()), [&](auto& m) { k.per(m); k.n(m.memTimingSpec.tRCD, "RCD", "tRCD"); k.n(m.memTimingSpec.tRP, "RP", "tRP"); k.n(m.memTimingSpec.tRTP, "RTP", "tRTP"); k.n(m.memTimingSpec.tRFCsb, "RFCsb_slr", "tRFCsb"); eq(m.memTimingSpec.tRFC, p.tRFCab, "tRFC"); eq(m.memTimingSpec.tBurst, p.BL / p.DR, "tBurst");
        std::string c = A["RefMode"].get<int>() == 2 ? "5f" : "5b"; eq(m.memPowerSpec.size(), 2u, "voltage domains"); k.xx(m.memPowerSpec[0], "idd", "vdd", c); k.xx(m.memPowerSpec[1], "ipp", "vpp", c); k.d(m.memPowerSpec[0].iXX5C, "idd5c", "iXX5C"); k.d(m.memPowerSpec[1].iXX5C, "ipp5c", "iXX5C");
        bool h = a.j.contains("dataratespec"); eq(m.dataRateSpec.commandBusRate, h ? a.j["dataratespec"]["ca_bus_rate"].get<uint64_t>() : 2, "command bus rate"); eq(m.dataRateSpec.dataBusRate, h ? a.j["dataratespec"]["dq_bus_rate"].get<uint64_t>() : 2, "data bus rate"); eq(m.dataRateSpec.dqsBusRate, h ? a.j["dataratespec"]["dqs_bus_rate"].get<uint64_t>() : 2, "strobe rate"); }); break;
    case Std::LPDDR4: with(MemSpecLPDDR4(a.j.get<U::MemSpecLPDDR4>()), [&](auto& m) { k.per(m); auto& t = m.memTimingSpec; k.n(t.tRCD, "RCD", "tRCD"); k.n(t.tRP, "RPpb", "tRP"); k.n(t.tRL, "RL", "tRL"); k.n(t.tRTP, "RTP", "tRTP"); k.n(t.tRFC, "RFCab", "tRFC"); k.n(t.tRFCPB, "RFCpb", "tRFCPB"); k.n(t.tREFI, "REFI", "tREFI"); auto x = power_suffixes(a.std); eq(m.memPowerSpec.size(), x.size(), "voltage domains"); for (std::size_t i = 0; i < x.size(); ++i) { k.dd(m.memPowerSpec[i], x[i]); k.d(m.memPowerSpec[i].iDD5PBX, "idd5pb" + x[i], "iDD5PBX"); }
        json b = a.j.contains("bankwisespec") ? a.j["bankwisespec"] : json::object(); eq(m.bwParams.bwPowerFactSigma, b.contains("factSigma") ? b["factSigma"].get<double>() : 1, "factSigma"); bool pasr = b.contains("hasPASR") && b["hasPASR"].get<bool>(); eq(m.bwParams.flgPASR, pasr, "hasPASR");
        if (pasr) { int mode = b["pasrMode"].get<int>(); eq(m.bwParams.pasrMode, uint64_t(mode), "pasrMode"); static const unsigned mask[] = {0xff, 0x0f, 0x03, 0x01, 0xfc, 0xf0, 0xc0, 0x80}; if (m.numberOfBanks == 8) for (unsigned q = 0; q < 8; ++q) eq(m.bwParams.isBankActiveInPasr(q), bool(mask[mode] >> q & 1), "bank " + std::to_string(q) + " refreshed in partial array mode " + std::to_string(mode)); } }); break;
    case Std::LPDDR5: with(MemSpecLPDDR5(a.j.get<U::MemSpecLPDDR5>()), [&](auto& m) { k.per(m); auto& t = m.memTimingSpec; k.n(t.tRCD, "RCD_S", "tRCD"); k.n(t.tRP, "RPpb", "tRP"); k.n(t.tRBTP, "RBTP", "tRBTP"); k.n(t.tRFC, "RFCab", "tRFC"); k.n(t.tRFCPB, "RFCpb", "tRFCPB"); k.n(t.tREFI, "REFI", "tREFI"); k.n(t.WCKtoCK, "WCK2CK", "WCKtoCK"); near(t.tWCK, p.tCK / p.wck2ck, "tWCK"); eq(m.wckAlwaysOnMode, A["WCKalwaysOn"].get<bool>(), "WCKalwaysOn");
        eq(int(m.bank_arch), int(p.groups == 4 ? MemSpecLPDDR5::MBG : p.banks == 16 ? MemSpecLPDDR5::M16B : MemSpecLPDDR5::M8B), "bank architecture"); auto x = power_suffixes(a.std); eq(m.memPowerSpec.size(), x.size(), "voltage domains"); for (std::size_t i = 0; i < x.size(); ++i) { k.dd(m.memPowerSpec[i], x[i]); k.d(m.memPowerSpec[i].iDD5PBX, "idd5pb" + x[i], "iDD5PBX"); k.d(m.memPowerSpec[i].iDD6DSX, "idd6ds" + x[i], "iDD6DSX"); } }); break;
    default: with(MemSpecLPDDR6(a.j.get<U::MemSpecLPDDR6>()), [&](auto& m) { k.per(m); auto& t = m.memTimingSpec; k.n(t.tRCDR, "RCD_r", "tRCDR"); k.n(t.tRCDW, "RCD_w", "tRCDW"); k.n(t.tRP, "RPpb", "tRP"); k.n(t.tRBTP, "RBTP", "tRBTP"); k.n(t.tRFCAB, "RFCab", "tRFCAB"); k.n(t.tRFCDB, "RFCdb", "tRFCDB"); k.n(t.tREFI, "REFI", "tREFI"); k.n(t.WCKtoCK, "WCK2CK", "WCKtoCK"); near(t.tWCK, p.tCK / p.wck2ck, "tWCK"); eq(m.wckAlwaysOnMode, A["WCKalwaysOn"].get<bool>(), "WCKalwaysOn");
        auto x = power_suffixes(a.std); eq(m.memPowerSpec.size(), x.size(), "voltage domains"); for (std::size_t i = 0; i < x.size(); ++i) { k.dd(m.memPowerSpec[i], x[i]); k.d(m.memPowerSpec[i].iDD5PDBX, "idd5pdb" + x[i], "iDD5PDBX"); k.d(m.memPowerSpec[i].iDD6DSX, "idd6ds" + x[i], "iDD6DSX"); } }); break;
    }
}
int main(int c, char** v) {
    pbt::Property p; p.id = "M01"; p.quick_cases = 270000; p.thorough_cases = 2000000;
    p.rule = "random specification document and an equivalent or partly changed one (omitted parameters made explicit, unknown refresh modes, unsupported bank architectures, parameters of unselected modes, of the other half of the model, or without meaning changed), the same random legal history on both; statistics and the untouched energies must agree exactly; every parameter read from a document must be the one of that name; non-trivial when more than three commands were issued";
    p.assumptions = {"histories start at cycle 1", "the specification document reaches DRAMPower through the stand-in for DRAMUtils"};
    p.scenarios = {{"omitted parameters", defaults, 4, 1}, {"refresh modes", refmode, 2, 1}, {"bank architectures", banks, 2, 1}, {"core and interface parameters", separate, 2, 1}, {"specification variants", variants, 1, 1}, {"parameters by name", fieldsOf, 1, 1}};
    return pbt::pbt_main(c, v, p);
}
