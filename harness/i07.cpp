// Interface energy of given or accumulated activity.
#include "energy_if.hpp"
using namespace vf;
static void history(Src& s, GenOpt o) {
    Spec sp = gen_ispec(s); std::optional<Toggle> t; if (s.chance(1, 3)) t = gen_toggle(s); IfRun r(s, sp, t, o, !t); r.g.now = 1; if (!t && s.chance(1, 3)) r.setDbi(true);
    unsigned n = o.minCmds + s.below(o.maxCmds - o.minCmds + 1); uint64_t rd = 0, wr = 0; std::size_t f = 0;
    auto query = [&](uint64_t T) { T = std::max(T, r.busyUntil()); s << "  query " << T << "\n"; r.g.now = T; IfStats q = statsOf(r.im, T); q.reads = rd; q.writes = wr; auto e = r.d->calcInterfaceEnergy(T); IfE w = iface_energy(sp, q); eqIf(conv(e), w, "at " + std::to_string(T) + " "); near(e.total(), w.total(), "total interface energy"); s.interesting((w.cs > 0) + (w.cd > 0) + (w.ds > 0) + (w.dd > 0)); };
    for (unsigned i = 0; i < n; ++i) { if (!r.step()) continue; for (; f < r.g.tr.size(); ++f) { rd += Gen::isRead(r.g.tr[f].c); wr += Gen::isWrite(r.g.tr[f].c); } if (s.chance(1, 8)) query(r.g.now + r.g.delta()); }
    query(r.g.now + r.g.delta());
}
static void stats(Src& s) {
    Spec sp = gen_ispec(s); auto d = make_dram(sp); Par p = params(sp); Stats st; st.bank.resize(p.ranks * p.banks); st.rank_total.resize(p.ranks); IfStats q;
    auto num = [&]() -> uint64_t { return s.chance(1, 3) ? 0 : s.chance(1, 8) ? s.below(1ull << 40) : s.below(5000); };
    bool only = s.chance(1, 2); uint64_t pickd = s.below(11), i = 0;      // half of the cases exercise one signal group alone
    auto set = [&](const char* n, DRAMPower::util::bus_stats_t& x, BS& y) { if (only && i++ != pickd) return; x.ones = num(); x.zeroes = num(); x.zeroes_to_ones = num(); x.ones_to_zeroes = num(); x.bit_changes = x.zeroes_to_ones + x.ones_to_zeroes; y = conv(x); s << n << ": ones " << y.ones << " zeroes " << y.zeroes << " rises " << y.z2o << " falls " << y.o2z << "\n"; };
    set("readBus", st.readBus, q.rd); set("writeBus", st.writeBus, q.wr); set("commandBus", st.commandBus, q.ca); set("clock", st.clockStats, q.clk); set("wclock", st.wClockStats, q.wck); set("readDQS", st.readDQSStats, q.rdqs); set("writeDQS", st.writeDQSStats, q.wdqs);
    set("readDBI", st.readDBI, q.rdbi); set("writeDBI", st.writeDBI, q.wdbi); set("togglingRead", st.togglingStats.read, q.togR); set("togglingWrite", st.togglingStats.write, q.togW);
    for (auto& k : st.rank_total) { k.counter.reads = num(); k.counter.readAuto = num(); k.counter.writes = num(); k.counter.writeAuto = num(); k.prepos.readSeamless = s.below(k.counter.reads + k.counter.readAuto + 1); k.prepos.writeSeamless = s.below(k.counter.writes + k.counter.writeAuto + 1);
        q.reads += k.counter.reads + k.counter.readAuto; q.writes += k.counter.writes + k.counter.writeAuto; q.rSeam += k.prepos.readSeamless; q.wSeam += k.prepos.writeSeamless; }
    IfE w = iface_energy(sp, q); auto e = d->calcInterfaceEnergyStats(st); eqIf(conv(e), w, ""); near(e.total(), w.total(), "total interface energy"); s.interesting((w.cs > 0) + (w.cd > 0) + (w.ds > 0) + (w.dd > 0));
}
int main(int c, char** v) {
    pbt::Property p; p.id = "I07"; p.quick_cases = 750000; p.thorough_cases = 3000000;
    p.rule = "random specification (terminations on and off, resistances, switching energies) with random activity of every signal group, or one group alone, or with the activity of a random history; controller and device, static and dynamic energy compared with V*V/R over the time at the costly level and rises times switching energy; non-trivial when at least one component was positive";
    p.assumptions = {"relative tolerance 1e-9"};
    GenOpt o;
    p.scenarios = {{"energy of activity", stats, 3, 1}, {"energy of a history", [o](Src& s) { history(s, o); }, 2, 1}};
    return pbt::pbt_main(c, v, p);
}
