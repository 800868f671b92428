// Core-energy reference: energies from counters and residencies, straight from the datasheet
// quantities of the specification document.
#pragma once
#include "core.hpp"
namespace vf {
struct BankE { double act = 0, pre = 0, bg_act = 0, bg_pre = 0, rd = 0, wr = 0, rda = 0, wra = 0, pre_rda = 0, pre_wra = 0, ab = 0, pb = 0, sb = 0, b2 = 0, db = 0; };
struct CoreE { std::vector<BankE> bank; double shared = 0, pdna = 0, pdnp = 0, sref = 0, dsm = 0; double scale = 0; };

struct Domain { double V, I0, I2N, I3N, I4R, I4W, I2P, I3P, I5, I5one, I6, I6DS, Ibeta; };
inline std::vector<Domain> domains(const Spec& s) {
    std::vector<Domain> v; auto p = [&](const std::string& k) { return s.p(k); };
    if (s.std == Std::DDR4 || s.std == Std::DDR5) for (std::string d : {"dd", "pp"}) {
        std::string i = "i" + d; Domain m{}; m.V = p("v" + d); m.I0 = p(i + "0"); m.I2N = p(i + "2n"); m.I3N = p(i + "3n"); m.I4R = p(i + "4r"); m.I4W = p(i + "4w"); m.I2P = p(i + "2p"); m.I3P = p(i + "3p"); m.I6 = p(i + "6n");
        auto mode = s.a("RefMode");
        if (s.std == Std::DDR4) m.I5 = p(i + (mode == 1 ? "5B" : mode == 2 ? "5F2" : "5F4")); else { m.I5 = p(i + (mode == 2 ? "5f" : "5b")); m.I5one = p(i + "5c"); }
        m.Ibeta = s.has_p("iBeta_v" + d) ? p("iBeta_v" + d) : m.I0; v.push_back(m);
    } else for (auto& x : power_suffixes(s.std)) {
        Domain m{}; m.V = p("vdd" + x); m.I0 = p("idd0" + x); m.I2N = p("idd2n" + x); m.I3N = p("idd3n" + x); m.I4R = p("idd4r" + x); m.I4W = p("idd4w" + x); m.I2P = p("idd2p" + x); m.I3P = p("idd3p" + x);
        m.I5 = p("idd5" + x); m.I5one = p((s.std == Std::LPDDR6 ? "idd5pdb" : "idd5pb") + x); m.I6 = p("idd6" + x); if (s.std != Std::LPDDR4) m.I6DS = p("idd6ds" + x);
        m.Ibeta = s.has_p("iBeta_vdd" + x) ? p("iBeta_vdd" + x) : m.I0; v.push_back(m);
    }
    return v;
}
// cnt(rank, bank) and cyc for banks and ranks come from the caller
template <typename FC, typename FB, typename FR>
CoreE core_energy(const Spec& s, FC cnt, FB bankCyc, FR rankCyc) {
    Par p = params(s); CoreE e; e.bank.resize(p.ranks * p.devices * p.banks);
    double B = double(p.banks), tck = p.tCK, rho = s.rho();
    double ras = p.tRAS * tck, rp = p.tRP * tck, rfc = p.tRFCab * tck, one = p.tRFCone * tck;
    bool ddr = !s.is_lp();
    bool bg5 = s.std == Std::LPDDR5 && p.groups == 4;
    for (auto& m : domains(s)) {
        double I1, Irho, IB;
        if (ddr) { Irho = m.I2N + rho * (m.I3N - m.I2N); I1 = (m.I3N + (B - 1) * Irho) / B; IB = m.I3N; }
        else { I1 = m.I3N; Irho = (B * rho * I1 + (1 - rho) * m.I2N) / (B * rho + 1 - rho); IB = Irho + B * (I1 - Irho); }
        double I2 = I1 + (I1 - Irho);
        double Itheta = (m.I0 * (rp + ras) - m.Ibeta * rp) / ras;
        double burst = s.std == Std::LPDDR5 || s.std == Std::LPDDR6 ? double(p.BL / p.DR) * tck / p.wck2ck : double(p.BL / p.DR) * tck;
        double Irw = ddr ? m.I3N : (bg5 || s.std == Std::LPDDR6) ? I2 : I1;
        double I5oneB = 0; if (s.is_lp()) { double w = s.t("REFI") * tck / 8; I5oneB = (m.I5one * w - m.I2N * (w - one)) / one; }
        for (uint64_t r = 0; r < p.ranks; ++r) {
            Cycles rc = rankCyc(r);
            for (uint64_t b = 0; b < p.banks; ++b) {
                Counters c = cnt(r, b); Cycles bc = bankCyc(r, b); BankE x;
                x.act = m.V * (Itheta - I1) * ras * c.act;
                x.pre = m.V * (m.Ibeta - m.I2N) * rp * c.pre; x.pre_rda = m.V * (m.Ibeta - m.I2N) * rp * c.readAuto; x.pre_wra = m.V * (m.Ibeta - m.I2N) * rp * c.writeAuto;
                x.bg_act = m.V * (I1 - Irho) * (bc.act * tck); x.bg_pre = m.V * m.I2N * (rc.pre * tck) / B;
                x.rd = m.V * (m.I4R - Irw) * burst * c.reads; x.rda = m.V * (m.I4R - Irw) * burst * c.readAuto;
                x.wr = m.V * (m.I4W - Irw) * burst * c.writes; x.wra = m.V * (m.I4W - Irw) * burst * c.writeAuto;
                x.ab = m.V * (m.I5 - IB) * rfc / B * c.refAllBank;
                if (s.std == Std::DDR5) { double IBG = Irho + (I1 - Irho) * p.groups; x.sb = m.V * (m.I5one - IBG) * one / p.groups * c.refSameBank; }
                if (s.std == Std::LPDDR4 || s.std == Std::LPDDR5) x.pb = m.V * (I5oneB - I1) * one * c.refPerBank;
                if (s.std == Std::LPDDR5) x.b2 = 0.5 * m.V * (I5oneB - I2) * one * c.refPerTwoBanks;
                if (s.std == Std::LPDDR6) x.db = 0.5 * m.V * (I5oneB - I2) * one * c.refDualBanks;
                for (uint64_t d = 0; d < p.devices; ++d) {
                    BankE& y = e.bank[(r * p.devices + d) * p.banks + b];
                    y.act += x.act; y.pre += x.pre; y.bg_act += x.bg_act; y.bg_pre += x.bg_pre; y.rd += x.rd; y.wr += x.wr; y.rda += x.rda; y.wra += x.wra; y.pre_rda += x.pre_rda; y.pre_wra += x.pre_wra; y.ab += x.ab; y.pb += x.pb; y.sb += x.sb; y.b2 += x.b2; y.db += x.db;
                }
            }
            double D = double(p.devices);
            e.shared += m.V * Irho * (rc.act * tck) * D; e.pdna += m.V * m.I3P * (rc.powerDownAct * tck) * D; e.pdnp += m.V * m.I2P * (rc.powerDownPre * tck) * D;
            e.sref += m.V * m.I6 * (rc.selfRefresh * tck) * D; e.dsm += m.V * m.I6DS * (rc.deepSleepMode * tck) * D;
        }
        // magnitude of the terms, for the rounding tolerance (cancelling differences of currents)
        double imax = std::max({m.I0, m.I2N, m.I3N, m.I4R, m.I4W, m.I5, m.I5one, m.Ibeta, std::fabs(Itheta), std::fabs(I5oneB), 1.0});
        e.scale = std::max(e.scale, m.V * imax * tck * 100);
    }
    return e;
}
} // namespace vf
