// The user-visible memory specification (a JSON document), a generator for it, and the
// parameters the oracles read from it. Nothing here includes code under test.
#pragma once
#include "pbt.hpp"
#include <optional>
#include <string>
#include <vector>

namespace vf {
using json = nlohmann::json;
using pbt::Src;
enum class Std { DDR4, DDR5, LPDDR4, LPDDR5, LPDDR6 };
inline const char* name(Std s) { static const char* n[] = {"DDR4", "DDR5", "LPDDR4", "LPDDR5", "LPDDR6"}; return n[int(s)]; }
inline const std::vector<Std>& all_std() { static const std::vector<Std> v{Std::DDR4, Std::DDR5, Std::LPDDR4, Std::LPDDR5, Std::LPDDR6}; return v; }

struct Spec {
    Std std = Std::DDR4;
    json j;
    uint64_t a(const char* k) const { return j["memarchitecturespec"].at(k).get<uint64_t>(); }
    uint64_t t(const char* k) const { return j["memtimingspec"].at(k).get<uint64_t>(); }
    double td(const char* k) const { return j["memtimingspec"].at(k).get<double>(); }
    double p(const std::string& k) const { return j["mempowerspec"].at(k).get<double>(); }
    bool has_p(const std::string& k) const { return j["mempowerspec"].contains(k) && !j["mempowerspec"][k].is_null(); }
    double imp(const std::string& k) const { return j["memimpedancespec"].at(k).get<double>(); }
    bool term(const std::string& k) const { return j["memimpedancespec"].at(k + "_termination").get<bool>(); }
    double rho() const { return j.contains("bankwisespec") && j["bankwisespec"].contains("factRho") ? j["bankwisespec"]["factRho"].get<double>() : 1.0; }
    bool is_lp() const { return std == Std::LPDDR4 || std == Std::LPDDR5 || std == Std::LPDDR6; }
    std::string text() const { json k = {{"arch", j["memarchitecturespec"]}, {"timing", j["memtimingspec"]}}; return std::string(name(std)) + " " + k.dump(); }
};

// Oracle's reading of the document.
struct Par {
    uint64_t banks, groups, perGroup, ranks, devices, width, BL, DR;
    double tCK;
    uint64_t tRAS, tRCD, tRP, tRFCab, tRFCone;   // tRFCone: per-bank / same-bank / dual-bank refresh
    uint64_t offRD, offWR;
    double wck2ck = 1;
};
inline Par params(const Spec& s) {
    Par p{}; p.banks = s.a("nbrOfBanks"); p.groups = s.a("nbrOfBankGroups"); p.perGroup = p.banks / p.groups;
    p.ranks = s.a("nbrOfRanks"); p.devices = std::max<uint64_t>(1, s.a("nbrOfDevices")); p.width = s.a("width"); p.BL = s.a("burstLength"); p.DR = s.a("dataRate");
    p.tCK = s.td("tCK"); p.tRAS = s.t("RAS");
    switch (s.std) {
    case Std::DDR4: { p.tRCD = s.t("RCD"); p.tRP = s.t("RP"); auto m = s.a("RefMode"); p.tRFCab = s.t(m == 1 ? "RFC1" : m == 2 ? "RFC2" : "RFC4"); p.tRFCone = 0;
        p.offRD = s.t("AL") + s.t("RTP"); p.offWR = p.BL / p.DR + s.t("WL") + s.t("WR"); break; }
    case Std::DDR5: { p.tRCD = s.t("RCD"); p.tRP = s.t("RP"); p.tRFCab = s.t(s.a("RefMode") == 2 ? "RFC2_slr" : "RFC1_slr"); p.tRFCone = s.t("RFCsb_slr");
        p.offRD = s.t("RTP"); p.offWR = p.BL / p.DR + s.t("WL") + s.t("WR"); break; }
    case Std::LPDDR4: p.tRCD = s.t("RCD"); p.tRP = s.t("RPpb"); p.tRFCab = s.t("RFCab"); p.tRFCone = s.t("RFCpb");
        p.offRD = p.BL == 16 ? s.t("RTP") : 8 + s.t("RTP"); p.offWR = s.t("WL") + p.BL / 2 + s.t("WR") + 1; break;
    case Std::LPDDR5: p.tRCD = s.t("RCD_S"); p.tRP = s.t("RPpb"); p.tRFCab = s.t("RFCab"); p.tRFCone = s.t("RFCpb"); p.wck2ck = s.td("WCK2CK");
        { uint64_t tb = p.BL / (p.DR * s.t("WCK2CK")); p.offRD = tb + s.t("RBTP"); p.offWR = s.t("WL") + tb + 1 + s.t("WR"); } break;
    case Std::LPDDR6: p.tRCD = std::max(s.t("RCD_r"), s.t("RCD_w")); p.tRP = s.t("RPpb"); p.tRFCab = s.t("RFCab"); p.tRFCone = s.t("RFCdb"); p.wck2ck = s.td("WCK2CK");
        { uint64_t tb = p.BL / (p.DR * s.t("WCK2CK")); p.offRD = tb + s.t("RBTP"); p.offWR = s.t("WL") + tb + 1 + s.t("WR"); } break;
    }
    return p;
}

inline std::vector<std::string> power_suffixes(Std s) {   // voltage domains: key suffix of vdd..
    switch (s) { case Std::LPDDR4: return {"1", "2"}; case Std::LPDDR5: return {"1", "2h", "2l"}; case Std::LPDDR6: return {"1", "2c", "2d"}; default: return {}; }
}
inline std::vector<std::string> signals(Std s) {
    switch (s) { case Std::DDR4: return {"ck", "ca", "rdq", "wdq", "wdqs", "rdqs", "wdbi", "rdbi"}; case Std::DDR5: return {"ck", "ca", "rdq", "wdq", "wdqs", "rdqs"};
        case Std::LPDDR4: return {"ck", "ca", "rdq", "wdq", "wdqs", "rdqs", "wdbi", "rdbi"}; case Std::LPDDR5: return {"ck", "ca", "rdq", "wdq", "wck", "rdqs", "wdbi", "rdbi"};
        default: return {"ck", "ca", "rdq", "wdq", "wck", "rdqs"}; }
}

struct SpecOpt { std::vector<Std> stds = all_std(); unsigned maxRanks = 3, maxDevices = 4; bool smallBanks = false; };

inline Spec gen_spec(Src& s, const SpecOpt& o = {}) {
    Spec sp; sp.std = s.pick(o.stds);
    json A, T, P, I, B;
    auto cur = [&] { return s.chance(1, 12) ? 0.0 : s.real(0.5, 300); };   // mA, zero now and then
    auto volt = [&] { return s.real(0.3, 2.5); };
    A["nbrOfColumns"] = 1024; A["nbrOfRows"] = 65536;
    A["nbrOfRanks"] = s.chance(1, 16) ? 1 + s.below(o.maxRanks > 1 ? (s.chance(1, 8) ? 24 : 8) : 1) : 1 + s.below(o.maxRanks); A["nbrOfDevices"] = 1 + s.below(o.maxDevices); 
    if (s.chance(1, 20)) A["nbrOfDevices"] = 0;
    T["tCK"] = s.real(0.2, 3.0) * 1e-9;
    uint64_t f = s.chance(1, 8) ? 10 : 1;   // slow parts now and then
    uint64_t ras = s.range(1, 45 * f), rcd = s.range(1, 24 * f), rp = s.range(1, 24 * f);
    T["RAS"] = ras; T["RTP"] = s.range(0, 12 * f); T["WL"] = s.range(0, 16 * f); T["WR"] = s.range(0, 20 * f);
    auto rfc = [&] { return rcd + s.range(0, 60 * f); };
    switch (sp.std) {
    case Std::DDR4:
        A["width"] = s.pick<int>({8, 4, 16}); A["burstLength"] = s.chance(1, 4) ? 4 : 8; A["dataRate"] = 2; A["nbrOfBankGroups"] = s.pick<int>({1, 2, 4}); A["nbrOfBanks"] = A["nbrOfBankGroups"].get<int>() * s.pick<int>({1, 2, 4});
        A["RefMode"] = s.pick<int>({1, 2, 4});
        T["RCD"] = rcd; T["RP"] = rp; T["AL"] = s.range(0, 6); T["RFC1"] = rfc(); T["RFC2"] = rfc(); T["RFC4"] = rfc(); break;
    case Std::DDR5:
        A["width"] = s.pick<int>({8, 4, 16}); A["burstLength"] = s.pick<int>({16, 8, 32}); A["dataRate"] = 2; A["nbrOfBankGroups"] = s.pick<int>({1, 2, 4, 8}); A["nbrOfBanks"] = A["nbrOfBankGroups"].get<int>() * (s.chance(1, 16) ? s.pick<int>({3, 5, 6}) : s.pick<int>({1, 2, 4}));
        A["RefMode"] = s.pick<int>({1, 2});
        T["RCD"] = rcd; T["RP"] = rp; T["RFCsb_slr"] = rfc(); T["RFC1_slr"] = rfc(); T["RFC2_slr"] = rfc(); break;
    case Std::LPDDR4:
        A["width"] = s.pick<int>({8, 16}); A["burstLength"] = s.pick<int>({16, 32}); A["dataRate"] = 2; A["nbrOfBankGroups"] = 1; A["nbrOfBanks"] = s.pick<int>({8, 8, 16});
        T["RCD"] = rcd; T["RPpb"] = rp; T["RL"] = s.range(1, 20); T["RFCpb"] = rfc(); T["RFCab"] = rfc(); T["REFI"] = 8 * s.range(1, 400); break;
    case Std::LPDDR5: {
        int m = s.below(3); A["width"] = s.pick<int>({8, 16}); A["burstLength"] = s.pick<int>({16, 32}); A["dataRate"] = 2; A["nbrOfBankGroups"] = m == 1 ? 4 : 1; A["nbrOfBanks"] = m == 2 ? 8 : 16;
        A["WCKalwaysOn"] = s.chance(1, 2); T["WCK2CK"] = s.pick<int>({2, 4}); T.erase("RTP"); T["RBTP"] = s.range(0, 12);
        T["RCD_S"] = rcd; T["RPpb"] = rp; T["RFCpb"] = rfc(); T["RFCab"] = rfc(); T["REFI"] = 8 * s.range(1, 400); break; }
    case Std::LPDDR6: {
        A["width"] = 12; A["burstLength"] = s.pick<int>({24, 48}); A["dataRate"] = 2; A["nbrOfBankGroups"] = s.chance(1, 3) ? 4 : 1; A["nbrOfBanks"] = 16;
        A["WCKalwaysOn"] = s.chance(1, 2); T["WCK2CK"] = 2; T.erase("RTP"); T["RBTP"] = s.range(0, 12);
        bool rs = s.chance(1, 2); uint64_t r2 = s.range(1, rcd); T["RCD_r"] = rs ? rcd : r2; T["RCD_w"] = rs ? r2 : rcd;
        T["RPpb"] = rp; T["RFCdb"] = rfc(); T["RFCab"] = rfc(); T["REFI"] = 8 * s.range(1, 400); break; }
    }
    P["vddq"] = volt();
    if (sp.std == Std::DDR4 || sp.std == Std::DDR5) {
        for (std::string d : {"dd", "pp"}) {
            std::string v = "v" + d, i = "i" + d; P[v] = volt();
            for (const char* k : {"0", "2n", "3n", "4r", "4w", "6n", "2p", "3p"}) P[i + k] = cur();
            if (sp.std == Std::DDR4) for (const char* k : {"5B", "5F2", "5F4"}) P[i + k] = cur();
            else for (const char* k : {"5b", "5c", "5f"}) P[i + k] = cur();
            if (s.chance(1, 2)) P["iBeta_v" + d] = cur();
        }
    } else for (const auto& x : power_suffixes(sp.std)) {
        P["vdd" + x] = volt();
        for (const char* k : {"0", "2n", "3n", "4r", "4w", "5", "6", "2p", "3p"}) P["idd" + std::string(k) + x] = cur();
        P[(sp.std == Std::LPDDR6 ? "idd5pdb" : "idd5pb") + x] = cur();
        if (sp.std != Std::LPDDR4) P["idd6ds" + x] = cur();
        if (s.chance(1, 2)) P["iBeta_vdd" + x] = cur();
    }
    for (const auto& g : signals(sp.std)) { I[g + "_termination"] = !s.chance(1, 4); I[g + "_R_eq"] = s.real(10, 500); I[g + "_dyn_E"] = s.chance(1, 10) ? 0.0 : s.real(0.1, 50) * 1e-12; }
    if (!s.chance(1, 4)) {
        B = json::object();
        if (!s.chance(1, 4)) B["factRho"] = s.chance(1, 6) ? 0.0 : s.real(0, 1);
        if (sp.std == Std::LPDDR4 && s.chance(1, 2)) { B["factSigma"] = s.real(0, 1); B["hasPASR"] = s.chance(1, 2); if (B["hasPASR"].get<bool>()) B["pasrMode"] = s.below(8); }
        sp.j["bankwisespec"] = B;
    }
    sp.j["memarchitecturespec"] = A; sp.j["memtimingspec"] = T; sp.j["mempowerspec"] = P; sp.j["memimpedancespec"] = I;
    sp.j["memoryId"] = "generated"; sp.j["memoryType"] = name(sp.std);
    if (sp.std == Std::DDR4) {
        json q; q["read_zeroes"] = s.real(0, 3, 12); q["write_zeroes"] = s.real(0, 3, 12); q["read_ones"] = s.real(0, 3, 12); q["write_ones"] = s.real(0, 3, 12);
        for (const char* k : {"read_zeroes_to_ones", "write_zeroes_to_ones", "write_ones_to_zeroes", "read_ones_to_zeroes", "readMinTccd", "writeMinTccd"}) q[k] = s.below(5);
        sp.j["prepostamble"] = q;
    }
    if (sp.std == Std::DDR5 && s.chance(1, 4)) sp.j["dataratespec"] = {{"ca_bus_rate", 2}, {"dq_bus_rate", 2}, {"dqs_bus_rate", s.pick<int>({2, 2, 4})}};
    s.label(name(sp.std));
    s << sp.text() << "\n";
    return sp;
}

struct Toggle { double trR, trW, dcR, dcW; int idleR, idleW; };   // idle: 0 = low, 1 = high
} // namespace vf
