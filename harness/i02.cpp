#include "check_iface.hpp"
using namespace vf;
static void ca(Src& s, GenOpt o, bool tog) {
    Spec sp = gen_ispec(s); std::optional<Toggle> t; if (tog) t = gen_toggle(s); IfRun r(s, sp, t, o);
    unsigned n = o.minCmds + s.below(o.maxCmds - o.minCmds + 1);
    auto query = [&](uint64_t T) { s << "  query " << T << "\n"; r.g.now = T; compare(r.d->getWindowStats(T), r.im.expect(T), P_CA, T); };
    for (unsigned i = 0; i < n; ++i) { if (!r.step()) continue; if (s.chance(1, 5)) query(r.g.now + (s.chance(1, 3) ? 0 : s.chance(1, 2) ? s.below(4) : r.g.delta())); }
    query(r.g.now + r.g.delta()); s.interesting(r.im.caLoads);
}
// LPDDR6 command parity, switched between commands.
static void parity(Src& s) {
    Spec sp = gen_ispec(s, {{Std::LPDDR6}}); sp.j["memarchitecturespec"]["WCKalwaysOn"] = true; IfRun r(s, sp, std::nullopt, {}); std::vector<C> cs; for (auto& kv : r.im.tab) cs.push_back(kv.first);
    uint64_t t = s.below(4), n = 1 + s.below(12); r.setParity(!s.chance(1, 4));
    for (uint64_t i = 0; i < n; ++i) {
        if (s.chance(1, 5)) r.setParity(!r.im.parity);
        Cmd k; k.t = t; k.c = s.pick(cs); k.rank = s.below(r.im.p.ranks); k.bank = s.below(r.im.p.banks); k.bg = s.below(16); k.row = s.below(1 << 19); k.col = s.below(1 << 11); bool dat = Gen::isRead(k.c) || Gen::isWrite(k.c);
        if (dat) burst(r.g, k, r.im, false);
        s << k << "\n"; r.im.apply(k); r.d->doInterfaceCommand(conv(k)); t += std::max<uint64_t>({r.im.caCyclesOf(k.c), 1, dat ? (r.im.beats(k) + r.im.p.DR - 1) / r.im.p.DR : 1}) + s.below(3);
        if (s.chance(1, 2)) compare(r.d->getWindowStats(t), r.im.expect(t), P_CA, t);
    }
    compare(r.d->getWindowStats(t + 3), r.im.expect(t + 3), P_CA, t + 3); s.interesting(r.im.caLoads);
}
// A single command with arbitrary coordinates, each bit of which must appear where the truth table says.
static void single(Src& s) {
    Spec sp = gen_ispec(s); IfRun r(s, sp, std::nullopt, {});
    std::vector<C> cs; for (auto& kv : r.im.tab) if (!(kv.first == C::REFP2B && r.im.p.banks == 8)) cs.push_back(kv.first);   // two-bank refresh does not exist with 8 banks
    uint64_t t = s.below(4), n = 1 + s.below(6);
    for (uint64_t i = 0; i < n; ++i) {
        Cmd k; k.t = t; k.c = s.pick(cs); k.rank = s.below(r.im.p.ranks); k.bank = s.below(r.im.p.banks); k.bg = s.below(16); k.row = s.below(1 << 19); k.col = s.below(1 << 11);
        if (Gen::isRead(k.c) || Gen::isWrite(k.c)) { burst(r.g, k, r.im, false); }
        s << k << "\n"; r.im.apply(k); r.d->doInterfaceCommand(conv(k));
        t += std::max<uint64_t>({r.im.caCyclesOf(k.c), 1, Gen::isRead(k.c) || Gen::isWrite(k.c) ? (r.im.beats(k) + r.im.p.DR - 1) / r.im.p.DR : 1}) + s.below(3);
        if (s.chance(1, 3)) compare(r.d->getWindowStats(t), r.im.expect(t), P_CA, t);
    }
    compare(r.d->getWindowStats(t + 3), r.im.expect(t + 3), P_CA, t + 3); s.interesting(r.im.caLoads);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "I02"; p.quick_cases = 540000; p.thorough_cases = 2000000;
    p.rule = "random specification; either a legal history or a few arbitrary commands with arbitrary coordinates sent to the interface alone; ones, zeroes and transitions of the command bus compared with a bit simulation of the truth tables; non-trivial when at least one command was driven onto the bus";
    p.assumptions = {"commands do not overlap on the command bus", "don't-care bits are high on DDR4/DDR5 and low on LPDDR"};
    GenOpt o; GenOpt lo; lo.minCmds = 20; lo.maxCmds = 150;
    p.scenarios = {{"legal history", [o](Src& s) { ca(s, o, false); }, 2, 1}, {"legal history without payload", [o](Src& s) { ca(s, o, true); }, 1, 1}, {"long history", [lo](Src& s) { ca(s, lo, true); }, 1, 1}, {"arbitrary coordinates", single, 4, 1}, {"LPDDR6 parity", parity, 1, 1}};
    return pbt::pbt_main(c, v, p);
}
