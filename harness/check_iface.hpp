#pragma once
#include "check_core.hpp"
#include "iface.hpp"
namespace vf {
inline BS conv(const DRAMPower::util::bus_stats_t& b) { return {b.ones, b.zeroes, b.bit_changes, b.ones_to_zeroes, b.zeroes_to_ones}; }
inline void eqBus(const BS& g, const BS& w, const std::string& at) {
    eq(g.ones, w.ones, at + " ones"); eq(g.zeroes, w.zeroes, at + " zeroes"); eq(g.z2o, w.z2o, at + " zero-to-one changes"); eq(g.o2z, w.o2z, at + " one-to-zero changes"); eq(g.bc, w.bc, at + " bit changes");
}
enum Part { P_DATA = 1, P_CA = 2, P_CLK = 4, P_TOG = 8, P_DBI = 16, P_PREPOS = 32 };
inline void compare(const Stats& st, const IfExpect& e, unsigned parts, uint64_t T) {
    std::string a = "at " + std::to_string(T) + " ";
    if (parts & P_DATA) { eqBus(conv(st.readBus), e.rd, a + "read bus"); eqBus(conv(st.writeBus), e.wr, a + "write bus"); }
    if (parts & P_CA) eqBus(conv(st.commandBus), e.ca, a + "command bus");
    if (parts & P_CLK) { eqBus(conv(st.clockStats), e.clk, a + "clock"); eqBus(conv(st.wClockStats), e.wck, a + "write clock"); eqBus(conv(st.readDQSStats), e.rdqs, a + "read strobe"); eqBus(conv(st.writeDQSStats), e.wdqs, a + "write strobe"); }
    if (parts & P_TOG) { eqBus(conv(st.togglingStats.read), e.togR, a + "read toggling"); eqBus(conv(st.togglingStats.write), e.togW, a + "write toggling"); }
    if (parts & P_DBI) { eqBus(conv(st.readDBI), e.rdbi, a + "read inversion lines"); eqBus(conv(st.writeDBI), e.wdbi, a + "write inversion lines"); }
    if (parts & P_PREPOS) for (std::size_t r = 0; r < e.seamless.size(); ++r) { std::string b = a + "rank " + std::to_string(r); eq(st.rank_total.at(r).prepos.readSeamless, e.seamless[r].first, b + " seamless reads"); eq(st.rank_total.at(r).prepos.writeSeamless, e.seamless[r].second, b + " seamless writes"); }
}
// One live run: model + device + generator.
struct IfRun {
    Src& s; Spec sp; std::optional<Toggle> tg; IfModel im; std::unique_ptr<Dram> d; Gen g; bool absent = false; std::size_t fed = 0;
    IfRun(Src& s, const Spec& spec, std::optional<Toggle> t, GenOpt o, bool absent = false) : s(s), sp(spec), tg(t), im(sp, t), d(make_dram(sp, t)), g(s, sp, fix(o)), absent(absent) {
        g.fillData = [this](Gen& g, Cmd& k) { burst(g, k, im, this->absent); return std::max<uint64_t>(1, (im.beats(k) + im.p.DR - 1) / im.p.DR); };
    }
    GenOpt fix(GenOpt o) { o.data = true; o.caCycles = [this](const Cmd& c) { return im.caCyclesOf(c.c); }; if (!o.allow) o.randomBg = s.chance(1, 3); return o; }
    void setDbi(bool on) { if (!im.canDbi()) return; im.dbi = on; d->getExtensionManager().withExtension<DRAMPower::extensions::DBI>([&](auto& x) { x.enable(g.now, on); }); s << "  data bus inversion " << (on ? "on" : "off") << "\n"; }
    void setParity(bool on) { im.parity = on; set_parity(*d, on); s << "  parity " << (on ? "on" : "off") << "\n"; }
    bool clockOn = true;                               // LPDDR6: interface switched off and on
    void setClock(uint64_t t, bool on) { if (on != clockOn) for (auto* k : {&im.clk, &im.wck}) { if (k == &im.wck && !im.wckAlways) continue; if (on) k->on.push_back({t, INF}); else k->on.back().e = t; } clockOn = on; set_clock(*d, t, on); s << "  interface " << (on ? "on" : "off") << " at " << t << "\n"; eq(get_clock(*d), on, "interface is on"); }
    void setMeta(uint16_t a, uint16_t b) { im.meta[0] = a; im.meta[1] = b; d->getExtensionManager().withExtension<DRAMPower::extensions::MetaData>([&](auto& x) { x.setMetaData(a, b); auto g = x.getMetaData(); eq(std::get<0>(g), a, "metadata read back"); eq(std::get<1>(g), b, "second metadata read back"); }); s << "  metadata " << a << " " << b << "\n"; }
    bool step() { if (!g.step()) return false; for (; fed < g.tr.size(); ++fed) { im.apply(g.tr[fed]); d->doCommand(conv(g.tr[fed])); } return true; }
    uint64_t busyUntil() const { return std::max(g.rdFree, g.wrFree); }
};
} // namespace vf
