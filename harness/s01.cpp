// A checkpoint restored into another device continues exactly like the original.
#include "statcmp.hpp"
using namespace vf;
struct Opt { bool tog = false, ext = false, dirty = false; };
// A device of the same specification with a history of its own: transfers in flight, deferred precharges, extensions switched.
static std::unique_ptr<Dram> used(Src& s, const Spec& sp, const std::optional<Toggle>& t, GenOpt o, Opt q) {
    bool v = s.verbose; s.verbose = false; IfRun u(s, sp, t, o, !t); unsigned n = 1 + s.below(12); bool lp6 = sp.std == Std::LPDDR6; uint64_t gated = 0;
    for (unsigned i = 0; i < n; ++i) { if (q.ext && s.chance(1, 4)) { u.setDbi(!u.im.dbi); if (lp6) u.setMeta(uint16_t(s.below(1 << 16)), uint16_t(s.below(1 << 16))); if (lp6 && u.im.wckAlways) u.setParity(!u.im.parity); if (lp6 && u.g.now > gated && s.chance(1, 2)) u.setClock(gated = u.g.now, !u.clockOn); } u.step(); }
    if (s.chance(1, 3)) u.d->getWindowStats(std::max(u.g.now, u.busyUntil()) + 100000); s.label(u.d->isSerializable() ? "target at rest" : "target with deferred events"); s.verbose = v; s << "  the target has executed " << u.g.tr.size() << " commands\n"; return std::move(u.d);
}
static void checkpoint(Src& s, GenOpt o, Opt q) {
    SpecOpt so; if (q.ext) so.stds = {Std::DDR4, Std::LPDDR4, Std::LPDDR5, Std::LPDDR6};
    Spec sp = gen_ispec(s, so); std::optional<Toggle> t; if (q.tog) t = gen_toggle(s); if (q.ext && sp.std == Std::LPDDR6 && s.chance(1, 2)) sp.j["memarchitecturespec"]["WCKalwaysOn"] = true;
    IfRun r(s, sp, t, o, !t); unsigned n = o.minCmds + s.below(o.maxCmds - o.minCmds + 1), restores = 0; std::unique_ptr<Dram> other; std::size_t f = 0;
    auto enable = [&](bool on) { r.setDbi(on); if (other && r.im.canDbi()) other->getExtensionManager().withExtension<DRAMPower::extensions::DBI>([&](auto& x) { x.enable(r.g.now, on); }); };
    auto meta = [&] { uint16_t a = uint16_t(s.below(1 << 16)), b = uint16_t(s.below(1 << 16)); r.setMeta(a, b); if (other) other->getExtensionManager().withExtension<DRAMPower::extensions::MetaData>([&](auto& x) { x.setMetaData(a, b); }); };
    auto parity = [&](bool on) { r.setParity(on); if (other) set_parity(*other, on); };
    uint64_t gated = 0; auto gate = [&] { if (r.g.now <= gated) return; gated = r.g.now; r.setClock(gated, !r.clockOn); if (other) set_clock(*other, gated, r.clockOn); };
    bool lp6 = sp.std == Std::LPDDR6, par = lp6 && r.im.wckAlways;
    for (unsigned i = 0; i < n; ++i) {
        if (q.ext && s.chance(1, 6)) { enable(!r.im.dbi); if (lp6) { meta(); if (s.chance(1, 2)) gate(); } if (par) parity(!r.im.parity); }
        if (!r.step()) continue;
        for (; f < r.g.tr.size(); ++f) if (other) other->doCommand(conv(r.g.tr[f]));
        if (!s.chance(1, 5)) continue;
        uint64_t T = r.g.now + (s.chance(1, 3) ? 0 : r.g.delta()); r.g.now = T;
        if (other) sameDevice(*other, *r.d, T, "restored against original at " + std::to_string(T)); else if (s.chance(2, 3)) r.d->getWindowStats(T);
        Stats before = r.d->getWindowStats(T); r.g.m.settle(T); bool pending = r.g.m.pendingImplicit(T);
        CHECK_MSG(pending || r.d->isSerializable(), "no event is pending at " << T << " but the device refuses a checkpoint"); s.label(r.d->isSerializable() ? "checkpointable" : "not checkpointable");
        if (!r.d->isSerializable()) continue;
        std::stringstream a, b; r.d->serialize(a); a << "tail"; sameStats(r.d->getWindowStats(T), before, "after taking a checkpoint");
        std::unique_ptr<Dram> fresh = q.dirty ? used(s, sp, t, o, q) : make_dram(sp, t);
        fresh->deserialize(a); std::string tail; a >> tail; eq(tail, std::string("tail"), "rest of the stream after reading a checkpoint"); s << "  checkpoint and restore at " << T << "\n"; ++restores;
        if (q.ext) { bool x = false, y = false; auto st = [&](Dram& d, bool& on) { d.getExtensionManager().withExtension<DRAMPower::extensions::DBI>([&](auto& e) { on = e.isEnabled(); }); }; st(*r.d, x); st(*fresh, y); eq(y, x, "inversion state after restoring"); if (lp6) { std::tuple<uint16_t, uint16_t> g; fresh->getExtensionManager().withExtension<DRAMPower::extensions::MetaData>([&](auto& e) { g = e.getMetaData(); }); CHECK_MSG(std::get<0>(g) == r.im.meta[0] && std::get<1>(g) == r.im.meta[1], "metadata after restoring differs"); eq(get_clock(*fresh), r.clockOn, "interface is on after restoring"); if (par) eq(get_parity(*fresh), r.im.parity, "parity mode after restoring"); } }
        other = std::move(fresh); sameDevice(*other, *r.d, T, "restored at " + std::to_string(T));
    }
    uint64_t T = std::max(r.g.now + r.g.delta(), r.busyUntil()); s << "  query " << T << "\n"; if (other) { sameDevice(*other, *r.d, T, "restored against original at the end"); r.g.now = T; s.interesting(restores); }
}
// Commands sent to the interface alone: the first transfer may begin at cycle 0, and reads and writes overlap freely.
static void interfaceOnly(Src& s) {
    Spec sp = gen_ispec(s); std::optional<Toggle> tg; if (s.chance(1, 2)) tg = gen_toggle(s); IfRun r(s, sp, tg, {}, !tg); bool pay = !tg || s.chance(1, 2);
    std::vector<C> cs; for (auto& kv : r.im.tab) if (!(kv.first == C::REFP2B && r.im.p.banks == 8)) cs.push_back(kv.first);
    std::unique_ptr<Dram> other; uint64_t t = s.chance(1, 2) ? 0 : s.below(4), rd = 0, wr = 0, n = 1 + s.below(10), restores = 0;
    for (uint64_t i = 0; i < n; ++i) {
        Cmd k; k.c = s.chance(2, 3) ? s.pick({C::RD, C::WR, C::RDA, C::WRA}) : s.pick(cs); bool R = Gen::isRead(k.c), W = Gen::isWrite(k.c); if (!r.im.tab.count(k.c)) continue;
        k.t = std::max(t, R ? rd : W ? wr : 0); k.rank = s.below(r.im.p.ranks); k.bank = s.below(r.im.p.banks); k.bg = s.below(16); k.row = s.below(1 << 19); k.col = s.below(1 << 11);
        if (R || W) { if (pay) burst(r.g, k, r.im, !tg); uint64_t e = k.t + std::max<uint64_t>(1, (r.im.beats(k) + r.im.p.DR - 1) / r.im.p.DR); (R ? rd : wr) = e; }
        s << k << "\n"; r.d->doInterfaceCommand(conv(k)); if (other) other->doInterfaceCommand(conv(k)); t = k.t + std::max<uint64_t>(1, r.im.caCyclesOf(k.c));
        bool late = s.chance(1, 2); uint64_t T = late ? t + s.below(6) : k.t; if (late && s.chance(1, 3)) { t = T; if (other) sameDevice(*other, *r.d, T, "restored against original at " + std::to_string(T)); else r.d->getWindowStats(T); }
        if (!s.chance(1, 3)) continue;
        CHECK_MSG(r.d->isSerializable(), "no event is pending at " << T << " but the device refuses a checkpoint"); std::stringstream a; r.d->serialize(a); auto fresh = make_dram(sp, tg); if (s.chance(1, 4)) { Cmd u; u.t = s.below(40); u.c = s.pick({C::RD, C::WR}); if (pay) burst(r.g, u, r.im, !tg); fresh->doInterfaceCommand(conv(u)); }
        fresh->deserialize(a); other = std::move(fresh); ++restores; s << "  checkpoint and restore after " << i + 1 << " commands\n"; s.label(T == 0 ? "restored at cycle 0" : "restored later");
    }
    uint64_t T = std::max({t, rd, wr}) + s.below(20); s << "  query " << T << "\n"; if (other) sameDevice(*other, *r.d, T, "restored against original at the end"); s.interesting(restores);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "S01"; p.quick_cases = 60000; p.thorough_cases = 1200000;
    p.rule = "random specification and legal history; at random moments at which the device accepts a checkpoint (power-down, self-refresh, open banks, bursts in flight included) it is written, read into another device of the same specification (fresh, or with a history of its own in which events are still deferred and transfers are in flight), and both continue with the same commands (in one scenario the commands go to the interface alone, so that transfers may begin at cycle 0); statistics and energies must stay identical; non-trivial when at least one checkpoint was restored";
    p.assumptions = {"checkpoints are taken only while the device reports itself serializable", "the target has the same specification and toggling configuration"};
    GenOpt o, row; o.hugeGaps = false; row.allow = [](C c) { return c == C::ACT || c == C::RD || c == C::WR || c == C::RDA || c == C::WRA || c == C::PRE; };
    p.scenarios = {{"mixed history", [o](Src& s) { checkpoint(s, o, {}); }, 4, 1}, {"row and column commands", [row](Src& s) { checkpoint(s, row, {}); }, 2, 1}, {"toggling rates", [o](Src& s) { checkpoint(s, o, {true}); }, 1, 1}, {"inversion, metadata and parity", [row](Src& s) { checkpoint(s, row, {false, true}); }, 3, 1}, {"target already used", [o](Src& s) { checkpoint(s, o, {s.chance(1, 4), false, true}); }, 2, 1}, {"target already used, extensions", [row](Src& s) { checkpoint(s, row, {false, true, true}); }, 1, 1}, {"interface alone", interfaceOnly, 1, 1}};
    return pbt::pbt_main(c, v, p);
}
