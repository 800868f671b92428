// LPDDR6 burst layout: payload, metadata and inversion flags on twelve lines.
#include "check_iface.hpp"
using namespace vf;
static void layout(Src& s, GenOpt o, bool single) {
    Spec sp = gen_ispec(s, {{Std::LPDDR6}}); IfRun r(s, sp, std::nullopt, o);
    unsigned n = single ? 1 : o.minCmds + s.below(o.maxCmds - o.minCmds + 1); uint64_t parts = 0; if (s.chance(1, 2)) { r.setDbi(true); ++parts; }
    auto meta = [&] { auto v = [&]() -> uint16_t { return s.chance(1, 3) ? uint16_t(1u << s.below(16)) : uint16_t(s.below(1 << 16)); }; uint16_t a = v(), b = v(); r.setMeta(a, b); };
    if (s.chance(2, 3)) { meta(); ++parts; }
    auto query = [&](uint64_t T) { s << "  query " << T << "\n"; r.g.now = T; compare(r.d->getWindowStats(T), r.im.expect(T), P_DATA | P_DBI, T); };
    if (single) {
        Cmd k; k.t = s.below(3); k.c = s.pick({C::WR, C::RD, C::WRA, C::RDA}); burst(r.g, k, r.im, false); s << k << "\n"; r.im.apply(k); r.d->doInterfaceCommand(conv(k)); s.interesting();
        uint64_t end = k.t + r.im.beats(k) / r.im.p.DR; r.g.now = end; r.g.rdFree = r.g.wrFree = end; query(end); query(end + s.below(3)); return; }
    for (unsigned i = 0; i < n; ++i) {
        if (s.chance(1, 10)) r.setDbi(!r.im.dbi);
        if (s.chance(1, 8)) meta();
        if (!r.step()) continue; if (s.chance(1, 5)) query(r.g.now + (s.chance(1, 3) ? 0 : s.below(12)));
    }
    query(r.g.now + r.g.delta()); s.interesting(r.im.dataLoads);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "I08"; p.quick_cases = 720000; p.thorough_cases = 2500000;
    p.rule = "random LPDDR6 specification (one or two devices, single and double bursts), random payload and metadata, inversion on and off; levels and transitions of the data lines compared with a cell-by-cell layout of the burst; non-trivial when at least one data transfer was issued";
    p.assumptions = {"compared when no transfer is in flight", "layout: twelve lines by 24 beats, metadata in beats 8-11 and inversion flags in beats 20-23 of lines 4, 5, 10 and 11"};
    GenOpt o; o.maxCmds = 40; o.allow = [](C c) { return c == C::ACT || c == C::RD || c == C::WR || c == C::RDA || c == C::WRA || c == C::PRE; };
    p.scenarios = {{"history", [o](Src& s) { layout(s, o, false); }, 2, 1}, {"one transfer", [o](Src& s) { layout(s, o, true); }, 3, 1}};
    return pbt::pbt_main(c, v, p);
}
