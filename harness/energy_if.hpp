// Interface-energy reference: termination and switching energy of every signal group.
#pragma once
#include "check_iface.hpp"
namespace vf {
struct IfE { double cs = 0, cd = 0, ds = 0, dd = 0; double total() const { return cs + cd + ds + dd; } };
struct IfStats { BS rd, wr, ca, clk, wck, rdqs, wdqs, rdbi, wdbi, togR, togW; uint64_t reads = 0, writes = 0, rSeam = 0, wSeam = 0; };
inline IfE iface_energy(const Spec& s, const IfStats& b) {
    Par p = params(s); IfE e; bool hi = s.std == Std::DDR4 || s.std == Std::DDR5; double V = s.p("vddq"), tck = p.tCK;
    auto term = [&](const std::string& sig, const BS& x, double period, double rate) { return s.term(sig) ? double(hi ? x.zeroes : x.ones) * V * V / s.imp(sig + "_R_eq") * period / rate : 0.0; };
    auto sw = [&](const std::string& sig, const BS& x) { return double(x.z2o) * s.imp(sig + "_dyn_E"); };
    auto ctl = [&](const std::string& sig, const BS& x, double period, double rate) { e.cs += term(sig, x, period, rate); e.cd += sw(sig, x); };
    auto dev = [&](const std::string& sig, const BS& x, double period, double rate) { e.ds += term(sig, x, period, rate); e.dd += sw(sig, x); };
    double dr = double(p.DR), dqs = dr;
    if (s.std == Std::DDR5) dqs = s.j.contains("dataratespec") ? s.j["dataratespec"]["dqs_bus_rate"].get<double>() : 2.0;
    ctl("ck", b.clk, tck, 2); ctl("ca", b.ca, tck, double(caRate(s.std)));
    ctl("wdq", b.wr, tck, dr); dev("rdq", b.rd, tck, dr); ctl("wdq", b.togW, tck, dr); dev("rdq", b.togR, tck, dr);
    bool split = s.std == Std::LPDDR5 || s.std == Std::LPDDR6;
    if (split) ctl("wck", b.wck, tck / p.wck2ck, 2); else ctl("wdqs", b.wdqs, tck, dqs);
    dev("rdqs", b.rdqs, tck, dqs);
    if (s.std == Std::DDR4 || s.std == Std::LPDDR4 || s.std == Std::LPDDR5) { ctl("wdbi", b.wdbi, tck, dr); dev("rdbi", b.rdbi, tck, dr); }
    if (s.std == Std::DDR4) {
        auto& q = s.j["prepostamble"]; double pairs = p.width == 16 ? 2 : 1;
        double w = double(b.writes - b.wSeam) * pairs, r = double(b.reads - b.rSeam) * pairs;
        if (s.term("wdqs")) { e.cs += w * q["write_zeroes"].get<double>() * V * V / s.imp("wdqs_R_eq") * tck; e.cd += w * q["write_zeroes_to_ones"].get<double>() * s.imp("wdqs_dyn_E"); }
        if (s.term("rdqs")) { e.ds += r * q["read_zeroes"].get<double>() * V * V / s.imp("rdqs_R_eq") * tck; e.dd += r * q["read_zeroes_to_ones"].get<double>() * s.imp("rdqs_dyn_E"); }
    }
    return e;
}
inline IfE conv(const DRAMPower::interface_energy_info_t& e) { return {e.controller.staticEnergy, e.controller.dynamicEnergy, e.dram.staticEnergy, e.dram.dynamicEnergy}; }
inline void eqIf(const IfE& g, const IfE& w, const std::string& a) { near(g.cs, w.cs, a + "controller static energy"); near(g.cd, w.cd, a + "controller dynamic energy"); near(g.ds, w.ds, a + "device static energy"); near(g.dd, w.dd, a + "device dynamic energy"); }
inline IfStats statsOf(const IfModel& m, uint64_t T) {
    IfExpect e = m.expect(T); IfStats b{e.rd, e.wr, e.ca, e.clk, e.wck, e.rdqs, e.wdqs, e.rdbi, e.wdbi, e.togR, e.togW}; for (auto& k : e.seamless) { b.rSeam += k.first; b.wSeam += k.second; } return b;
}
} // namespace vf
