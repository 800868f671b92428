// Copies and moved-to devices are independent devices in the same state.
#include "statcmp.hpp"
using namespace vf;
using Event = std::function<void(Dram&)>;
static void copies(Src& s, GenOpt o, bool tog) {
    Spec sp = gen_ispec(s); std::optional<Toggle> t; if (tog) t = gen_toggle(s); bool lp6 = sp.std == Std::LPDDR6; if (lp6 && s.chance(1, 3)) sp.j["memarchitecturespec"]["WCKalwaysOn"] = true;
    IfRun r(s, sp, t, o, !t); unsigned n = o.minCmds + s.below(o.maxCmds - o.minCmds + 1), taken = 0; std::size_t f = 0;
    auto ref = make_dram(sp, t);                  // receives the whole history directly
    std::vector<Event> hist; auto push = [&](Event e) { e(*ref); hist.push_back(std::move(e)); }; auto upTo = [&](Dram& d, std::size_t a, std::size_t b) { for (; a < b; ++a) hist[a](d); };
    std::unique_ptr<Dram> frozen; std::size_t frozenAt = 0; uint64_t gated = 0;
    for (unsigned i = 0; i < n; ++i) {
        if (s.chance(1, 6)) {
            if (!taken && !t && r.im.canDbi() && s.chance(1, 2)) { bool on = !r.im.dbi; uint64_t at = r.g.now; r.setDbi(on); push([on, at](Dram& d) { d.getExtensionManager().withExtension<DRAMPower::extensions::DBI>([&](auto& x) { x.enable(at, on); }); }); }
            else if (!taken && lp6 && s.chance(1, 3)) { uint16_t a = uint16_t(s.below(1 << 16)), b = uint16_t(s.below(1 << 16)); r.setMeta(a, b); push([a, b](Dram& d) { d.getExtensionManager().withExtension<DRAMPower::extensions::MetaData>([&](auto& x) { x.setMetaData(a, b); }); }); }
            else if (lp6 && r.im.wckAlways && s.chance(1, 2)) { bool on = !r.im.parity; r.setParity(on); push([on](Dram& d) { set_parity(d, on); }); }
            else if (lp6 && r.g.now > gated) { gated = r.g.now; bool on = !r.clockOn; uint64_t at = gated; r.setClock(at, on); push([on, at](Dram& d) { set_clock(d, at, on); }); }
        }
        if (!r.step()) continue; for (; f < r.g.tr.size(); ++f) { Cmd k = r.g.tr[f]; push([k](Dram& d) { d.doCommand(conv(k)); }); }
        if (!s.chance(1, 5)) continue;
        int how = int(s.below(4)); static const char* nm[] = {"copied", "copy-assigned", "moved", "move-assigned"}; std::unique_ptr<Dram> target;
        if (how & 1) { target = make_dram(sp, t); if (s.chance(1, 2)) { Cmd k; k.t = s.below(5); k.c = C::ACT; target->doCommand(conv(k)); } }
        s << "  " << nm[how] << "\n"; ++taken; auto c = clone(sp, *r.d, how, std::move(target)); s.label(nm[how]);
        bool keepOld = how < 2 && s.chance(1, 2);
        if (keepOld) { // continue with the original; the copy goes its own way first
            uint64_t T = r.g.now + 100000 + s.below(50); auto w = make_dram(sp, t); upTo(*w, 0, hist.size()); Cmd k; k.t = T; k.c = C::END; k.rank = 0;
            unsigned how2 = unsigned(s.below(3)); if (how2) for (Dram* d : {c.get(), w.get()}) how2 == 1 ? d->doCoreCommand(conv(k)) : d->doCommand(conv(k)); sameDevice(*c, *w, T, "copy on its own"); if (s.chance(1, 2)) c.reset(); else { frozen = std::move(c); frozenAt = std::size_t(-1); } }
        else if (how < 2 && s.chance(1, 2)) { std::swap(r.d, c); frozen = std::move(c); frozenAt = hist.size(); }   // continue with the copy, the original stays behind
        else { r.d = std::move(c); }                                       // original destroyed, copy continues
    }
    uint64_t T = std::max(r.g.now + r.g.delta(), r.busyUntil()); s << "  query " << T << "\n"; sameDevice(*r.d, *ref, T, "after copying and moving"); s.interesting(taken);
    if (frozen && frozenAt <= hist.size()) {
        if (s.chance(1, 2)) { auto w = make_dram(sp, t); upTo(*w, 0, frozenAt); sameDevice(*frozen, *w, T, "original left behind"); s.label("left behind"); }
        else { upTo(*frozen, frozenAt, hist.size()); sameDevice(*frozen, *ref, T, "original left behind, given the rest later"); s.label("left behind, resumed"); if (s.chance(1, 2)) r.d.reset(), sameDevice(*frozen, *ref, T + 5, "original that outlives its copy"); }
    }
}
// Recorded defect: the extensions of a copy still act on the device it was copied from.
static void copyWithInversion(Src& s) {
    pbt::Src q(std::vector<uint64_t>{}); Spec sp = gen_ispec(q, {{Std::LPDDR4}}); auto d = make_dram(sp); auto c = clone(sp, *d, 0); auto on = [](Dram& x, bool v) { x.getExtensionManager().withExtension<DRAMPower::extensions::DBI>([&](auto& e) { e.enable(0, v); }); }; auto st = [](Dram& x) { bool r = false; x.getExtensionManager().withExtension<DRAMPower::extensions::DBI>([&](auto& e) { r = e.isEnabled(); }); return r; };
    s << "copy an LPDDR4 device, then enable data bus inversion on the copy\n"; on(*c, true); CHECK_MSG(st(*c), "inversion is not enabled on the copy"); CHECK_MSG(!st(*d), "inversion was enabled on the copy and is reported as enabled on the original");
}
// Recorded defect, same cause: after a move the extension refers to the device that was moved from.
static void moveWithInversion(Src& s) {
    pbt::Src q(std::vector<uint64_t>{}); Spec sp = gen_ispec(q, {{Std::LPDDR4}}); auto d = make_dram(sp); auto c = clone(sp, *d, 2); d.reset(); s << "move an LPDDR4 device, destroy the moved-from object, enable data bus inversion, read all ones\n";
    c->getExtensionManager().withExtension<DRAMPower::extensions::DBI>([&](auto& e) { e.enable(0, true); });
    IfModel m(sp, std::nullopt); m.dbi = true; Cmd k; k.t = 1; k.c = C::RD; k.bits = 16 * m.width; k.data.assign(k.bits / 8, 0xff); c->doInterfaceCommand(conv(k)); m.apply(k); compare(c->getWindowStats(40), m.expect(40), P_DATA | P_DBI, 40);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "S04"; p.quick_cases = 16000; p.thorough_cases = 800000;
    p.rule = "random legal history (inversion, metadata, parity and gating included) interrupted by copy and move construction and assignment of the device (onto fresh and used targets, originals kept, left behind, resumed or destroyed); every device must report what a never-copied device with the same commands reports; non-trivial when at least one copy or move was made";
    p.assumptions = {"the extensions (inversion, metadata) are set before the first copy only: recorded defect"};
    GenOpt o; o.maxCmds = 40;
    p.scenarios = {{"mixed history", [o](Src& s) { copies(s, o, false); }, 3, 1}, {"toggling rates", [o](Src& s) { copies(s, o, true); }, 1, 1}};
    p.known = {{"extension of a copy", copyWithInversion}, {"extension of a moved device", moveWithInversion}};
    return pbt::pbt_main(c, v, p);
}
