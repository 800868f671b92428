// Asking for statistics does not disturb the model, and what it reports only ever grows.
#include "statcmp.hpp"
using namespace vf;
// the time after which nothing scheduled by the commands so far happens
static uint64_t lastEvent(const CoreModel& m) { uint64_t e = 0; for (auto& k : m.r) { for (uint64_t x : {k.readyAt, k.srefStart, k.pdEntry}) e = std::max(e, x); for (auto& b : k.b) e = std::max({e, b.busyUntil, b.autoAt, b.refEnd}); } return e; }
static void purity(Src& s, GenOpt o) {
    Spec sp = gen_ispec(s); std::optional<Toggle> t; if (s.chance(1, 3)) t = gen_toggle(s); IfRun r(s, sp, t, o, !t); auto quiet = make_dram(sp, t); bool dbi = !t && r.im.canDbi() && s.chance(1, 3);
    if (dbi) { r.setDbi(true); quiet->getExtensionManager().withExtension<DRAMPower::extensions::DBI>([](auto& x) { x.enable(0, true); }); }
    unsigned n = o.minCmds + s.below(o.maxCmds - o.minCmds + 1); Stats prev; bool have = false; std::size_t f = 0; uint64_t q = 0, pT = 0, lastT = 0;
    auto query = [&](uint64_t T) {
        s << "  query " << T << "\n"; r.g.now = T; ++q;
        Stats a = r.d->getWindowStats(T);
        switch (s.below(4)) { case 0: r.d->calcCoreEnergy(T); break; case 1: r.d->calcInterfaceEnergy(T); break; case 2: r.d->getTotalEnergy(T); break; default: break; }
        sameStats(r.d->getWindowStats(T), a, "second query at " + std::to_string(T)); { auto x = r.d->getLastCommandTime(); CHECK_MSG(x >= lastT && x <= T, "time of the last event " << x << " outside [" << lastT << ", " << T << "]"); uint64_t b = std::max(lastT, lastEvent(r.g.m)); CHECK_MSG(x <= b, "time of the last event " << x << " after a query, although nothing happens after " << b); }
        if (have) { auto x = fields(prev), y = fields(a); for (std::size_t i = 0; i < x.size(); ++i) if (*y[i].p < *x[i].p) { std::ostringstream m; m << x[i].n << " fell from " << *x[i].p << " at " << pT << " to " << *y[i].p << " at " << T; throw pbt::Fail(m.str()); } }
        prev = a; pT = T; have = true; };
    for (unsigned i = 0; i < n; ++i) {
        if (!r.step()) continue; for (; f < r.g.tr.size(); ++f) { quiet->doCommand(conv(r.g.tr[f])); lastT = r.g.tr[f].t; }
        if (s.chance(1, 3)) query(r.g.now + (s.chance(1, 2) ? s.below(3) : r.g.delta()));
    }
    uint64_t T = r.g.now + r.g.delta(); query(T); sameDevice(*r.d, *quiet, pT, "queried against never queried device"); s.interesting(q);
    if (r.g.tr.size() && !dbi && lastT == pT) sameStats(r.d->getStats(), prev, "statistics at the last command");
}
// Commands of other banks and ranks in the very cycle of a query, and before the next query.
static void sameCycle(Src& s) {
    Spec sp = gen_spec(s); GenOpt o; auto d = make_dram(sp), quiet = make_dram(sp); Gen g(s, sp, o); unsigned n = 4 + unsigned(s.below(50)), q = 0; bool core = s.chance(1, 2);
    for (unsigned i = 0; i < n; ++i) {
        if (s.chance(1, 2)) g.o.gap = [] { return uint64_t(0); }; else g.o.gap = nullptr;
        std::size_t f = g.tr.size(); g.step(); for (; f < g.tr.size(); ++f) { d->doCoreCommand(conv(g.tr[f])); quiet->doCoreCommand(conv(g.tr[f])); }
        if (s.chance(1, 2)) { uint64_t T = g.now; s << "  query " << T << "\n"; ++q; if (core) d->calcCoreEnergy(T); else d->getWindowStats(T); }
        if (s.chance(1, 6)) { auto t = clone(sp, *quiet, 0); sameStats(d->getWindowStats(g.now), t->getWindowStats(g.now), "queried in the same cycle"); sameEnergy(d->calcCoreEnergy(g.now), t->calcCoreEnergy(g.now), "queried in the same cycle"); ++q; }
    }
    uint64_t T = s.chance(1, 2) ? g.now : g.now + g.delta(); s.interesting(q); sameStats(d->getWindowStats(T), quiet->getWindowStats(T), "queried in the same cycle"); sameEnergy(d->calcCoreEnergy(T), quiet->calcCoreEnergy(T), "queried in the same cycle");
}
// getStats is the window up to the last command.
static void last(Src& s, GenOpt o) {
    Spec sp = gen_ispec(s); IfRun r(s, sp, std::nullopt, o); auto other = make_dram(sp); unsigned n = 1 + s.below(30); std::size_t f = 0; uint64_t lt = 0; for (unsigned i = 0; i < n; ++i) { if (!r.step()) continue; for (; f < r.g.tr.size(); ++f) { other->doCommand(conv(r.g.tr[f])); lt = r.g.tr[f].t; } if (s.chance(1, 4)) { sameStats(r.d->getStats(), other->getWindowStats(lt), "statistics at the last command"); s.interesting(2); } }
    sameStats(r.d->getStats(), other->getWindowStats(lt), "statistics at the last command"); s.interesting();
}
int main(int c, char** v) {
    pbt::Property p; p.id = "C07"; p.quick_cases = 52000; p.thorough_cases = 1500000;
    p.rule = "random specification and legal history run on two devices, one queried at random times in between; final statistics and energies must agree exactly, repeated queries must agree, and no reported number may fall between two queries; non-trivial when at least two queries were made";
    p.assumptions = {"queries are not earlier than the last command or query"};
    GenOpt o, l; l.minCmds = 30; l.maxCmds = 160;
    p.scenarios = {{"mixed history", [o](Src& s) { purity(s, o); }, 5, 2}, {"long history", [l](Src& s) { purity(s, l); }, 1, 2}, {"commands in the cycle of a query", sameCycle, 2, 2}, {"statistics at the last command", [o](Src& s) { last(s, o); }, 1, 2}};
    return pbt::pbt_main(c, v, p);
}
