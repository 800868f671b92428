// Data bus inversion.
#include "check_iface.hpp"
using namespace vf;
static void dbi(Src& s, GenOpt o, SpecOpt so) {
    Spec sp = gen_ispec(s, so); IfRun r(s, sp, std::nullopt, o, true);
    unsigned n = o.minCmds + s.below(o.maxCmds - o.minCmds + 1); r.setDbi(true);
    auto query = [&](uint64_t T) { s << "  query " << T << "\n"; r.g.now = T; compare(r.d->getWindowStats(T), r.im.expect(T), P_DBI | P_DATA, T); };
    for (unsigned i = 0; i < n; ++i) {
        if (s.chance(1, 12)) r.setDbi(!r.im.dbi);
        if (!r.step()) continue; if (s.chance(1, 5)) query(r.g.now + (s.chance(1, 3) ? 0 : s.chance(1, 2) ? s.below(12) : r.g.delta()));
    }
    query(r.g.now + r.g.delta()); s.interesting(r.im.inverted);
}
// The decision rule on its own: inversion never leaves a byte with more costly bits than half, and
// the cost of the data lines never exceeds that of the uninverted transfer.
static void benefit(Src& s) {
    Spec sp = gen_ispec(s, {{Std::DDR4, Std::LPDDR4, Std::LPDDR5}}); GenOpt o; o.maxCmds = 30; o.allow = [](C c) { return c == C::ACT || c == C::RD || c == C::WR; };
    IfRun r(s, sp, std::nullopt, o); if (!r.im.hasPins()) throw pbt::Discard{}; auto plain = make_dram(sp); r.setDbi(true);
    unsigned n = 2 + s.below(30); uint64_t bytes = 0;
    for (unsigned i = 0; i < n; ++i) { std::size_t f = r.g.tr.size(); if (!r.step()) continue; for (; f < r.g.tr.size(); ++f) { auto& k = r.g.tr[f]; plain->doCommand(conv(k)); bytes += k.bits / 8; } }
    uint64_t T = std::max(r.g.now, r.busyUntil()) + 1 + s.below(20); s << "  query " << T << "\n"; auto a = r.d->getWindowStats(T), b = plain->getWindowStats(T); bool hi = sp.std == Std::DDR4;
    auto cost = [&](const DRAMPower::util::bus_stats_t& x) { return hi ? x.zeroes : x.ones; };
    for (bool rd : {true, false}) {
        auto &x = rd ? a.readBus : a.writeBus, &y = rd ? b.readBus : b.writeBus, &z = rd ? a.readDBI : a.writeDBI; std::string w = rd ? "read" : "write";
        CHECK_MSG(cost(x) <= cost(y), w << " bus costs " << cost(x) << " with inversion and " << cost(y) << " without"); eq(x.ones + x.zeroes, y.ones + y.zeroes, w + " bus bit count");
        CHECK_MSG(cost(z) * 8 <= (x.ones + x.zeroes), "more inversion flags than bytes"); CHECK_MSG(cost(x) <= bytes * 4, w << " bus has more than four costly bits per byte: " << cost(x) << " for " << bytes << " bytes");
        CHECK_MSG(cost(y) >= cost(x) + cost(z) , w << ": each flagged byte must save at least one bit");
    }
    s.interesting(r.im.inverted);
}
static void refused(Src& s) {
    Spec sp = gen_ispec(s, {{Std::DDR4, Std::DDR5}}); if (sp.std == Std::DDR4) sp.j["memarchitecturespec"]["width"] = 4; GenOpt o; o.maxCmds = 30; IfRun r(s, sp, std::nullopt, o); bool on = false;
    r.d->getExtensionManager().withExtension<DRAMPower::extensions::DBI>([&](auto& x) { x.enable(0, true); on = x.isEnabled(); }); CHECK_MSG(!on, "inversion reported as enabled on a device without inversion lines");
    unsigned n = 2 + s.below(30); for (unsigned i = 0; i < n; ++i) r.step(); uint64_t T = std::max(r.g.now, r.busyUntil()) + s.below(20); compare(r.d->getWindowStats(T), r.im.expect(T), P_DBI | P_DATA, T); s.interesting(r.im.dataLoads);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "I05"; p.quick_cases = 240000; p.thorough_cases = 2000000;
    p.rule = "random specification with inversion lines (1 to 80 devices), inversion switched on and off between transfers, random payloads back to back and with gaps; data lines and inversion lines compared with an independent per-byte decision and bit simulation; non-trivial when at least two chunks were inverted";
    p.assumptions = {"inversion flags appear on the lines in payload order"};
    GenOpt o; o.allow = [](C c) { return c == C::ACT || c == C::RD || c == C::WR || c == C::RDA || c == C::WRA || c == C::PRE; }; GenOpt all; SpecOpt so{{Std::DDR4, Std::LPDDR4, Std::LPDDR5}};
    p.scenarios = {{"row and column commands", [=](Src& s) { dbi(s, o, so); }, 5, 2}, {"mixed history", [=](Src& s) { dbi(s, all, so); }, 1, 2}, {"inversion pays off", benefit, 2, 2}, {"devices without inversion lines", refused, 1, 1}};
    return pbt::pbt_main(c, v, p);
}
