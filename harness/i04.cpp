// Data activity estimated from configured toggling rates.
#include "check_iface.hpp"
using namespace vf;
static void toggling(Src& s, GenOpt o, SpecOpt so) {
    Spec sp = gen_ispec(s, so); Toggle t = gen_toggle(s); IfRun r(s, sp, t, o, true); if (s.chance(1, 8)) r.setDbi(true);
    unsigned n = o.minCmds + s.below(o.maxCmds - o.minCmds + 1);
    auto query = [&](uint64_t T) { s << "  query " << T << "\n"; r.g.now = T; compare(r.d->getWindowStats(T), r.im.expect(T), P_TOG | P_DATA | P_DBI, T); };
    for (unsigned i = 0; i < n; ++i) { if (!r.step()) continue; if (s.chance(1, 5)) query(r.g.now + (s.chance(1, 3) ? 0 : s.chance(1, 2) ? s.below(12) : r.g.delta())); }
    query(r.g.now + r.g.delta()); s.interesting(r.im.dataLoads);
}
// Changing the payload of a history must not change anything when toggling rates are used, and the
// toggling estimate must be absent when they are not.
static void payload(Src& s) {
    Spec sp = gen_ispec(s); Toggle t = gen_toggle(s); bool on = s.chance(1, 2); std::optional<Toggle> tg; if (on) tg = t; GenOpt o; o.maxCmds = 40; IfRun r(s, sp, tg, o, !on);
    auto d2 = make_dram(sp, tg); unsigned n = 2 + s.below(40);
    for (unsigned i = 0; i < n; ++i) { std::size_t f = r.g.tr.size(); if (!r.step()) continue; for (; f < r.g.tr.size(); ++f) { Cmd k = r.g.tr[f]; if (on && k.bits) k.data = gen_bytes(s, (k.bits + 7) / 8); d2->doCommand(conv(k)); } }
    uint64_t T = r.g.now + r.g.delta(); s << "  query " << T << "\n"; auto a = r.d->getWindowStats(T), b = d2->getWindowStats(T);
    for (auto* x : {&a, &b}) compare(*x, r.im.expect(T), on ? P_TOG | P_DATA | P_CA | P_DBI : P_TOG | P_CA | P_DBI, T);
    s.interesting(r.im.dataLoads);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "I04"; p.quick_cases = 405000; p.thorough_cases = 2000000;
    p.rule = "random specification, random rates, duty cycles and idle levels (0 and 1 included), random legal history with and without payload; estimated data activity compared with rate times transferred slots plus idle level elsewhere, real data activity must be absent; non-trivial when at least two data transfers were issued";
    p.assumptions = {"per-line counts are rounded down as documented by the model"};
    GenOpt o; o.allow = [](C c) { return c == C::ACT || c == C::RD || c == C::WR || c == C::RDA || c == C::WRA || c == C::PRE; }; o.maxCmds = 90; GenOpt all;
    p.scenarios = {{"row and column commands", [o](Src& s) { toggling(s, o, {}); }, 3, 2}, {"mixed history", [all](Src& s) { toggling(s, all, {}); }, 1, 2}, {"payload is irrelevant", payload, 1, 2}};
    return pbt::pbt_main(c, v, p);
}
