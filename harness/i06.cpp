// Pre- and postamble accounting of DDR4.
#include "energy_if.hpp"
using namespace vf;
static void run(Src& s, GenOpt o, bool tog) {
    Spec sp = gen_ispec(s, {{Std::DDR4}}); std::optional<Toggle> t; if (tog) t = gen_toggle(s); IfRun r(s, sp, t, o, !tog); r.g.now = 1;
    unsigned n = o.minCmds + s.below(o.maxCmds - o.minCmds + 1); uint64_t rd = 0, wr = 0; std::size_t f = 0; Spec base = sp; for (auto& kv : base.j["prepostamble"].items()) kv.value() = 0; auto d0 = make_dram(base, t);
    auto query = [&](uint64_t T) { s << "  query " << T << "\n"; r.g.now = T; auto st = r.d->getWindowStats(T); compare(st, r.im.expect(T), P_PREPOS, T);
        IfStats q = statsOf(r.im, T); q.reads = rd; q.writes = wr; IfE w = iface_energy(sp, q), w0 = iface_energy(base, q); eqIf(conv(r.d->calcInterfaceEnergy(T)), w, "at " + std::to_string(T) + " ");
        // the contribution alone: difference to the same history without pre- and postambles
        IfE g = conv(r.d->calcInterfaceEnergy(T)), g0 = conv(d0->calcInterfaceEnergyStats(st)); auto dif = [&](double a, double b, double x, double y, const char* n) { near(a - b, x - y, n, std::max(std::fabs(a), std::fabs(x)) ); };
        dif(g.cs, g0.cs, w.cs, w0.cs, "write pre/postamble static"); dif(g.cd, g0.cd, w.cd, w0.cd, "write pre/postamble dynamic"); dif(g.ds, g0.ds, w.ds, w0.ds, "read pre/postamble static"); dif(g.dd, g0.dd, w.dd, w0.dd, "read pre/postamble dynamic"); };
    for (unsigned i = 0; i < n; ++i) {
        if (s.chance(1, 2)) { uint64_t e = s.chance(1, 2) ? r.g.rdFree : r.g.wrFree; if (e > r.g.now && s.chance(2, 3)) r.g.now = e - s.below(2); }   // aim at seamless continuation
        if (!r.step()) continue; for (; f < r.g.tr.size(); ++f) { rd += Gen::isRead(r.g.tr[f].c); wr += Gen::isWrite(r.g.tr[f].c); }
        if (s.chance(1, 6)) query(r.g.now + s.below(12)); }
    query(r.g.now + r.g.delta()); for (auto& k : r.im.rk) { s.interesting(k.rs + k.ws); s.label("seamless", k.rs + k.ws); }
}
int main(int c, char** v) {
    pbt::Property p; p.id = "I06"; p.quick_cases = 300000; p.thorough_cases = 2500000;
    p.rule = "random DDR4 specification with random pre- and postamble quantities and random histories biased to transfers that start exactly when the previous one of the same rank and direction ends; per-rank seamless counts and interface energy compared with the model; non-trivial when at least one seamless transfer occurred";
    p.assumptions = {"histories start at cycle 1", "compared when no transfer is in flight"};
    GenOpt o; o.allow = [](C c) { return c == C::ACT || c == C::RD || c == C::WR || c == C::RDA || c == C::WRA; }; o.hugeGaps = false; GenOpt all;
    p.scenarios = {{"row and column commands", [o](Src& s) { run(s, o, false); }, 3, 1}, {"without payload", [o](Src& s) { run(s, o, true); }, 1, 1}, {"mixed history", [all](Src& s) { run(s, all, false); }, 1, 1}};
    return pbt::pbt_main(c, v, p);
}
