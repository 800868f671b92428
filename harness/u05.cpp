// Data bus utilities: payload bus, toggling-rate line and the bus that switches between the two.
#include "iface.hpp"
#include <DRAMPower/util/databus_presets.h>
#include <DRAMPower/util/pin.h>
using namespace vf; using pbt::Src; using pbt::eq; namespace U = DRAMPower::util; namespace DC = DRAMUtils::Config;
static BS conv(const U::bus_stats_t& x) { BS b; b.ones = x.ones; b.zeroes = x.zeroes; b.bc = x.bit_changes; b.o2z = x.ones_to_zeroes; b.z2o = x.zeroes_to_ones; return b; }
static void same(const U::bus_stats_t& g, const BS& w, const std::string& at) { BS x = conv(g); eq(x.ones, w.ones, at + " ones"); eq(x.zeroes, w.zeroes, at + " zeroes"); eq(x.o2z, w.o2z, at + " falls"); eq(x.z2o, w.z2o, at + " rises"); eq(x.bc, w.bc, at + " changes"); }
template <typename T> void reload(T& x, T&& fresh) { std::stringstream s(std::ios::in | std::ios::out | std::ios::binary); x.serialize(s); fresh.deserialize(s); eq(std::size_t(s.tellg()), s.str().size(), "bytes read back"); x = std::move(fresh); }
// Segments in which the bus is driven; each starts from the idle level and is cut off at its end.
struct SegBus { uint64_t w, dr; bool idle; struct Seg { uint64_t s, e; BitBus b; }; std::vector<Seg> g; bool on = false;
    SegBus(uint64_t w_, uint64_t d, bool i, bool start) : w(w_), dr(d), idle(i) { if (start) enable(0); }
    void enable(uint64_t t) { if (!on) g.push_back({t, INF, BitBus(w, dr, idle)}); on = true; } void disable(uint64_t t) { if (on) g.back().e = t; on = false; }
    void load(uint64_t t, const std::vector<uint8_t>& d, uint64_t bits) { if (on) g.back().b.loadPayload(t - g.back().s, d, bits); }
    BS at(uint64_t T) const { BS s; for (auto& x : g) if (T > x.s) s += x.b.at(std::min(T, x.e) - x.s); return s; } };
struct SegTog { uint64_t w, dr; double tr, dc; bool idle; std::vector<Iv> on, bursts; bool run = false;     // cycles / slots
    void enable(uint64_t t) { if (!run) on.push_back({t, INF}); run = true; } void disable(uint64_t t) { if (run) { on.back().e = t; for (auto& b : bursts) b.e = std::min(b.e, std::max(b.s, t * dr)); } run = false; }
    void load(uint64_t t, uint64_t beats) { if (run) bursts.push_back({t * dr, t * dr + beats}); }
    BS at(uint64_t T) const { uint64_t E = T * dr, n = 0, tot = 0; for (auto& b : bursts) if (b.s < E) n += std::min(b.e, E) - b.s; for (auto& i : on) if (i.s < T) tot += (std::min(i.e, T) - i.s) * dr;
        BS s; uint64_t ch = uint64_t(std::floor(double(n) * tr / 2)); s.ones = uint64_t(std::floor(double(n) * dc)); s.zeroes = uint64_t(std::floor(double(n) * (1 - dc))); s.o2z = s.z2o = ch; s.bc = 2 * ch; (idle ? s.ones : s.zeroes) += tot - n; return s * w; } };
static uint64_t widthOf(Src& s, uint64_t max) { switch (s.below(6)) { case 0: return 8; case 1: return 16; case 2: return 1 + s.below(std::min<uint64_t>(max, 64)); case 3: return std::min<uint64_t>(max, s.pick<uint64_t>({63, 64, 65, 128, 255, 256, 257})); case 4: return 1 + s.below(std::min<uint64_t>(max, 300)); default: return s.chance(1, 6) ? 1 + s.below(max) : 1 + s.below(std::min<uint64_t>(max, 32)); } }
static uint64_t step(Src& s) { return s.chance(1, 3) ? 0 : s.chance(1, 12) ? s.below(1 << 12) : s.below(10); }
static DC::TogglingRateIdlePattern ip(bool h) { return h ? DC::TogglingRateIdlePattern::H : DC::TogglingRateIdlePattern::L; }
static double rate(Src& s) { return s.chance(1, 4) ? double(s.below(2)) : s.chance(1, 2) ? 0.5 : s.real(0, 1); }
// ---- switching data bus
static void databus(Src& s) {
    uint64_t w = widthOf(s, 4096), dr = s.pick<uint64_t>({2, 1, 4, 8, 16}); bool bus = s.chance(1, 2); DC::ToggleRateDefinition td; bool iR = s.chance(1, 2), iW = s.chance(1, 2);
    td.togglingRateRead = rate(s); td.togglingRateWrite = rate(s); td.dutyCycleRead = rate(s); td.dutyCycleWrite = rate(s); td.idlePatternRead = ip(iR); td.idlePatternWrite = ip(iW);
    auto make = [&](bool b) { return U::databus_presets::getDataBusPreset(U::DataBusConfig{w, dr, td}, b ? U::DataBusMode::Bus : U::DataBusMode::TogglingRate); };
    auto d = make(bus); eq(d.getWidth(), w, "width"); SegBus R(w, dr, iR, bus), W(w, dr, iW, bus); SegTog tR{w, dr, td.togglingRateRead, td.dutyCycleRead, iR, {}, {}}, tW{w, dr, td.togglingRateWrite, td.dutyCycleWrite, iW, {}, {}}; if (!bus) { tR.enable(0); tW.enable(0); }
    s << "width " << w << " rate " << dr << (bus ? " payload" : " toggling") << " idle " << iR << iW << "\n"; uint64_t now = 0, freeR = 0, freeW = 0; unsigned ops = 1 + s.below(18), loads = 0, sw = 0;
    auto check = [&](uint64_t T) { U::bus_stats_t a, b, c, e; d.get_stats(T, a, b, c, e); std::string p = "at " + std::to_string(T); same(a, R.at(T), p + " read"); same(b, W.at(T), p + " write"); same(c, tR.at(T), p + " toggling read"); same(e, tW.at(T), p + " toggling write"); eq(d.isBus(), bus, "payload mode"); eq(d.isTogglingRate(), !bus, "toggling mode"); };
    for (unsigned i = 0; i < ops; ++i) {
        now += step(s);
        switch (s.below(9)) {
        case 0: case 1: case 2: { bool rd = s.chance(1, 2); auto& fr = rd ? freeR : freeW; now = std::max(now, fr); uint64_t beats = dr * (1 + s.below(s.chance(1, 4) ? 8 : 2)); if (s.chance(1, 5)) beats = 1 + s.below(20); if (w > 512) beats = 1 + beats % 5; uint64_t bits = beats * w; auto data = gen_bytes(s, (bits + 7) / 8); bool none = s.chance(1, 6);
            (rd ? d.loadRead(now, bits, none ? nullptr : data.data()) : d.loadWrite(now, bits, none ? nullptr : data.data())); s << "  " << now << (rd ? " read " : " write ") << beats << " beats" << (none ? " without payload" : "") << "\n";
            if (bus) { if (!none) { (rd ? R : W).load(now, data, bits); fr = now + (beats + dr - 1) / dr; ++loads; } } else { (rd ? tR : tW).load(now, beats); fr = now + (beats + dr - 1) / dr; ++loads; } break; }
        case 3: case 4: { bus = !bus; s << "  " << now << (bus ? " payload mode\n" : " toggling mode\n"); if (bus) { d.enableBus(now); R.enable(now); W.enable(now); tR.disable(now); tW.disable(now); } else { d.enableTogglingRate(now); R.disable(now); W.disable(now); tR.enable(now); tW.enable(now); } freeR = freeW = now; ++sw; break; }
        case 5: if (s.chance(1, 2)) { s << "  mode kept\n"; bus ? d.enableBus(now) : d.enableTogglingRate(now); } break;
        case 6: if (s.chance(1, 3)) { s << "  save and restore\n"; auto o = make(s.chance(1, 2)); if (s.chance(1, 2)) { auto x = gen_bytes(s, (w + 7) / 8); o.loadRead(3, w, x.data()); } reload(d, std::move(o)); } break;
        case 7: if (s.chance(1, 3)) { tR.tr = td.togglingRateRead = rate(s); tW.tr = td.togglingRateWrite = rate(s); tR.dc = td.dutyCycleRead = rate(s); tW.dc = td.dutyCycleWrite = rate(s); tR.idle = s.chance(1, 2); tW.idle = s.chance(1, 2); td.idlePatternRead = ip(tR.idle); td.idlePatternWrite = ip(tW.idle); d.setTogglingRateDefinition(td); td.idlePatternRead = ip(iR); td.idlePatternWrite = ip(iW); s << "  new rates\n"; } break;
        default: break; }
        check(now); check(now + s.below(14));
    }
    check(now + s.below(1000)); s.interesting(loads + sw);
}
// ---- one payload bus, including the level seen at each slot
template <std::size_t N> void bus(Src& s) {
    uint64_t w = std::min<uint64_t>(widthOf(s, N), N), dr = s.pick<uint64_t>({1, 2, 4, 8}); bool idle = s.chance(1, 2), on = s.chance(5, 6); using B = U::Bus<N>; auto make = [&](bool o) { return B(w, dr, idle ? U::BusIdlePatternSpec::H : U::BusIdlePatternSpec::L, o); }; B b = make(on); SegBus m(w, dr, idle, on);
    s << "width " << w << " rate " << dr << " idle " << idle << (on ? "\n" : " disabled\n"); eq(b.get_width(), w, "width"); uint64_t now = 0, fr = 0; unsigned ops = 1 + s.below(15), ev = 0;
    for (unsigned i = 0; i < ops; ++i) {
        now += step(s);
        switch (s.below(7)) {
        case 0: case 1: case 2: { now = std::max(now, fr); uint64_t beats = 1 + s.below(24); if (w > 200) beats = 1 + beats % 6; auto data = gen_bytes(s, (beats * w + 7) / 8); s << "  " << now << " load " << beats << "\n";
            if (beats * w <= 64 && s.chance(1, 2)) { uint64_t v = 0; for (std::size_t k = 0; k < data.size(); ++k) v |= uint64_t(data[k]) << (8 * k); b.load(now, v, beats); } else b.load(now, data.data(), beats * w);
            if (m.on) { m.load(now, data, beats * w); fr = now + (beats + dr - 1) / dr; ++ev; auto& u = m.g.back().b.b.back(); for (uint64_t k = 0; k < beats + 3; ++k) { auto x = b.at(now * dr + k); Word want = k < beats ? u.w[k] : m.g.back().b.idleWord(); for (uint64_t q = 0; q < w; ++q) if (x[q] != bool(want[q / 64] >> (q % 64) & 1)) throw pbt::Fail("line " + std::to_string(q) + " in beat " + std::to_string(k)); } } break; }
        case 3: if (m.on) { s << "  " << now << " disable\n"; b.disable(now); m.disable(now); fr = now; ++ev; } else { s << "  " << now << " enable\n"; b.enable(now); m.enable(now); fr = now; ++ev; } break;
        case 4: s << "  kept\n"; if (m.on) b.enable(now); else b.disable(now); break;
        case 5: if (s.chance(1, 2)) { s << "  save and restore\n"; B o = make(s.chance(1, 2)); reload(b, std::move(o)); ++ev; } break;
        default: break; }
        uint64_t q[] = {now, now + s.below(14), now + s.below(14)}; for (uint64_t t : q) same(b.get_stats(t), m.at(t), "at " + std::to_string(t));
    }
    s.interesting(ev);
}
// ---- toggling line
static void toggling(Src& s) {
    SegTog m{1 + s.below(300), s.pick<uint64_t>({1, 2, 4, 8, 16}), rate(s), rate(s), s.chance(1, 2), {}, {}}; bool on = s.chance(3, 4); using T = DRAMPower::TogglingHandle; T h; if (s.chance(1, 2)) h = T(m.w, m.dr, m.tr, m.dc, ip(m.idle), on); else { s << "default, then configured; "; h.setWidth(m.w); h.setDataRate(m.dr); h.setTogglingRateAndDutyCycle(m.tr, m.dc, ip(m.idle)); if (on) h.enable(0); } if (on) m.enable(0); uint64_t now = 0, end = 0; unsigned ops = 1 + s.below(18), ev = 0; s << "width " << m.w << " rate " << m.dr << "\n";
    for (unsigned i = 0; i < ops; ++i) {
        now += s.chance(1, 12) ? s.below(1ull << 32) : step(s);
        switch (s.below(6)) {
        case 0: case 1: case 2: { now = std::max(now, (end + m.dr - 1) / m.dr); uint64_t beats = 1 + s.below(40); if (s.chance(1, 2)) h.incCountBurstLength(now, beats); else h.incCountBitLength(now, beats * m.w); s << "  " << now << " burst " << beats << "\n"; if (m.run) { m.load(now, beats); end = now * m.dr + beats; eq(h.get_lastburst_timestamp(false), end, "end of the last burst"); eq(h.get_lastburst_timestamp(), (end + m.dr - 1) / m.dr, "cycle in which the last burst has ended"); ++ev; } break; }
        case 3: if (m.run) { h.disable(now); m.disable(now); end = now * m.dr; s << "  " << now << " disable\n"; } else { h.enable(now); m.enable(now); s << "  " << now << " enable\n"; } ++ev; break;
        case 4: if (s.chance(1, 2)) { T o(7, 3, 0.25, 0.75, ip(!m.idle), s.chance(1, 2)); reload(h, std::move(o)); s << "  save and restore\n"; ++ev; } break;
        default: m.tr = rate(s); m.dc = rate(s); m.idle = s.chance(1, 2); h.setTogglingRateAndDutyCycle(m.tr, m.dc, ip(m.idle)); break; }
        eq(h.isEnabled(), m.run, "enabled"); eq(h.getWidth(), m.w, "width"); eq(h.getDatarate(), m.dr, "rate"); eq(h.getTogglingRate(), m.tr, "toggling rate"); eq(h.getDutyCycle(), m.dc, "duty cycle");
        uint64_t q[] = {now, now + s.below(20), now + s.below(20)}; for (uint64_t t : q) same(h.get_stats(t), m.at(t), "at " + std::to_string(t));
    }
    s.interesting(ev);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "U05"; p.quick_cases = 1800000; p.thorough_cases = 10000000;
    p.rule = "random sequences of bursts, mode switches, rate changes and save/restore on the payload bus, the toggling line and the switching data bus for widths of 1 to 4096 lines, compared at current and future times with a slot-by-slot replay of the periods in which each mode was active; non-trivial when at least two bursts or switches happened";
    p.assumptions = {"bursts of one direction do not overlap and times do not run backwards", "the words of a burst appear on the bus last word first", "the current toggling rate and duty cycle apply to all bursts counted so far", "a burst cut off by a mode switch counts up to the switch"};
    p.scenarios = {{"data bus", databus, 3, 2}, {"payload bus (64)", bus<64>, 2, 2}, {"payload bus (300)", bus<300>, 1, 2}, {"toggling line", toggling, 2, 2}};
    return pbt::pbt_main(c, v, p);
}
