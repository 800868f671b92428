// A workload that leaves the device idle, repeated: every statistic and energy grows linearly, however long it goes on.
#include <malloc.h>
#include "statcmp.hpp"
using namespace vf;
static std::size_t heap() { auto m = ::mallinfo2(); return m.uordblks + m.hblkhd; }
static bool quiet(const CoreModel& m, uint64_t t) { for (auto& k : m.r) if (!m.rankFree(k, t) || !m.allIdle(k, t)) return false; return true; }
static void periodic(Src& s, unsigned minCmds, unsigned maxCmds, uint64_t minTotal, uint64_t maxTotal, unsigned stream = 0) {
    SpecOpt so; if (stream && s.chance(2, 3)) so.stds = {Std::DDR4}; Spec sp = gen_ispec(s, so); std::optional<Toggle> tg; if (s.chance(1, 4)) tg = gen_toggle(s); if (sp.std == Std::LPDDR6 && s.chance(1, 3)) sp.j["memarchitecturespec"]["WCKalwaysOn"] = true;
    bool closing = false; GenOpt o; o.hugeGaps = false; o.allow = [&](C c) { return !closing || c == C::PDXA || c == C::PDXP || c == C::SREFEX || c == C::DSMEX || c == C::PRE || c == C::PREA; };
    IfRun r(s, sp, tg, o, !tg); r.g.now = 1 + s.below(20); if (!tg && s.chance(1, 3)) r.setDbi(true); if (sp.std == Std::LPDDR6 && s.chance(1, 2)) r.setMeta(uint16_t(s.below(1 << 16)), uint16_t(s.below(1 << 16)));
    unsigned n = minCmds + unsigned(s.below(maxCmds - minCmds + 1)); for (unsigned i = 0; i < n; ++i) r.step();
    if (stream) {   // transfers of one direction without a gap between them
        C kind = s.chance(1, 2) ? C::RD : C::WR; auto all = r.g.o.allow; unsigned k = stream / 2 + unsigned(s.below(stream)); r.g.o.allow = [](C c) { return c == C::ACT || c == C::PDXA || c == C::PDXP || c == C::SREFEX || c == C::DSMEX; };
        auto open = [&] { for (auto& x : r.g.m.r) if (!x.pd && !x.inSref) for (auto& b : x.b) if (r.g.m.opened(b, r.g.now)) return true; return false; };
        for (unsigned i = 0; i < 200 && !open(); ++i) { r.step(); r.g.m.settle(r.g.now); }
        r.g.o.allow = [kind](C c) { return c == kind; }; r.g.o.gap = [&] { uint64_t f = kind == C::RD ? r.g.rdFree : r.g.wrFree; return f > r.g.now ? f - r.g.now : 0; }; for (unsigned i = 0; i < k; ++i) r.step();
        r.g.o.gap = nullptr; r.g.o.allow = all;
    }
    closing = true; for (unsigned i = 0; i < 2000; ++i) { r.g.m.settle(r.g.now); if (quiet(r.g.m, r.g.now)) break; r.step(); }
    r.g.m.settle(r.g.now); if (r.g.tr.empty() || !quiet(r.g.m, r.g.now)) throw pbt::Discard{};
    // long enough for whatever was scheduled, and for the minimum distances a power-down entry waits for
    uint64_t settled = std::max(r.g.now + r.g.m.p.tRAS + r.g.m.p.tRP + r.g.m.p.tRCD, r.busyUntil()) + 40;
    uint64_t P = settled + (s.chance(1, 8) ? s.below(1ull << 31) : s.below(3000)); P += P % 2;   // whole clock cycles at every rate
    uint64_t total = minTotal + s.below(maxTotal - minTotal + 1), N = std::max<uint64_t>(3, (total + r.g.tr.size() - 1) / r.g.tr.size());
    s << "period " << P << ", " << r.g.tr.size() << " commands, repeated " << N << " times\n";
    const Trace motif = r.g.tr; std::vector<DRAMPower::Command> cmds; for (auto& c : motif) cmds.push_back(conv(c));
    struct Snap { Stats st; DRAMPower::energy_t core; IfE io; double total; };
    auto snap = [&](uint64_t T) { Snap x{r.d->getWindowStats(T), r.d->calcCoreEnergy(T), conv(r.d->calcInterfaceEnergy(T)), 0}; x.total = r.d->getTotalEnergy(T); return x; };
    Snap one = snap(P); checkShape(one.st, r.g.m.p); auto f1 = fields(one.st);
    uint64_t togR = 0, togW = 0; for (auto& b : r.im.tR.bursts) togR += b.e - b.s; for (auto& b : r.im.tW.bursts) togW += b.e - b.s;
    auto compare = [&](uint64_t k) {
        Snap x = snap(k * P); std::string w = "after " + std::to_string(k) + " repetitions"; auto f = fields(x.st); eq(f.size(), f1.size(), w + ": number of statistics");
        for (std::size_t i = 0; i < f.size(); ++i) { if (f[i].n.rfind("togglingStats", 0) == 0) continue; if (*f[i].p != k * *f1[i].p) eq(*f[i].p, k * *f1[i].p, w + ": " + f[i].n); }
        for (bool rd : {true, false}) { TogLine l = rd ? r.im.tR : r.im.tW; l.bursts.clear(); uint64_t q = (rd ? togR : togW) * k; if (q) l.bursts.push_back({0, q}); eqBus(conv(rd ? x.st.togglingStats.read : x.st.togglingStats.write), l.at(k * P), w + (rd ? ": read toggling" : ": write toggling")); }
        double q = double(k), scale = std::abs(x.io.total()); for (auto& e : x.core.bank_energy) for (auto& y : numbers(e)) scale += std::abs(y.second); for (auto& y : numbers(x.core)) scale += std::abs(y.second);
        eq(x.core.bank_energy.size(), one.core.bank_energy.size(), w + ": number of bank energies"); auto lin = [&](double a, double b, const std::string& n) { near(a, q * b, w + ": " + n, 1e-4 * scale, 1e-9); };
        for (std::size_t i = 0; i < x.core.bank_energy.size(); ++i) { auto a = numbers(x.core.bank_energy[i]), b = numbers(one.core.bank_energy[i]); for (std::size_t j = 0; j < a.size(); ++j) if (a[j].second != q * b[j].second) lin(a[j].second, b[j].second, "bank " + std::to_string(i) + " " + a[j].first); }
        auto a = numbers(x.core), b = numbers(one.core); for (std::size_t j = 0; j < a.size(); ++j) lin(a[j].second, b[j].second, a[j].first); lin(x.core.total(), one.core.total(), "core energy");
        if (!tg) { lin(x.io.cs, one.io.cs, "controller static energy"); lin(x.io.cd, one.io.cd, "controller dynamic energy"); lin(x.io.ds, one.io.ds, "device static energy"); lin(x.io.dd, one.io.dd, "device dynamic energy"); lin(x.total, one.total, "total energy"); }
    };
    // the statistics of one repetition against the model
    r.g.m.settle(P); for (uint64_t k = 0; k < r.g.m.p.ranks; ++k) for (uint64_t b = 0; b < r.g.m.p.banks; ++b) { auto& x = one.st.bank[k * r.g.m.p.banks + b]; eqCounters(conv(x.counter), r.g.m.bankCounters(k, b, P), at(P, k, long(b))); eqCycles(conv(x.cycles), r.g.m.bankCycles(k, b, P), at(P, k, long(b))); }
    std::size_t held = 0; uint64_t swap = s.chance(1, 3) ? 1 + s.below(N - 1) : 0;
    for (uint64_t k = 2; k <= N; ++k) {
        if (swap == k - 1) { r.d->getWindowStats((k - 1) * P); CHECK_MSG(r.d->isSerializable(), "an idle device refuses a checkpoint after " << k - 1 << " repetitions"); std::stringstream st; r.d->serialize(st); auto x = make_dram(sp, tg); x->deserialize(st); r.d = std::move(x); }
        for (auto c : cmds) { c.timestamp += (k - 1) * P; r.d->doCommand(c); }
        eq(r.d->getLastCommandTime(), (k - 1) * P + motif.back().t, "time of the last command"); if (k == N) { std::size_t h = heap(); CHECK_MSG(held == 0 || h <= held + 16384, "the device holds " << h - held << " bytes more after " << k << " than after two repetitions"); }
        if (k == 2 || k == N) compare(k); if (k == 2) held = heap();
    }
    s.interesting(N * motif.size());
}
int main(int c, char** v) {
    pbt::Property p; p.id = "S05"; p.quick_cases = 12000; p.thorough_cases = 300000;
    p.rule = "random specification and a random legal workload that ends with every rank idle, repeated a few to more than a hundred thousand times at a fixed period of up to 2^31 cycles, sometimes with a checkpoint on the way; after two and after all repetitions every statistic must be the exact multiple of that of one repetition (which is compared with the reference model), toggling-rate statistics the rounded value for the sum of the beats, every energy the multiple up to rounding; non-trivial when at least ten commands were executed";
    p.assumptions = {"the period is long enough for everything scheduled in it to finish", "payload, inversion and metadata settings are the same in every repetition"};
    p.scenarios = {{"a few repetitions", [](Src& s) { periodic(s, 1, 40, 10, 400); }, 40, 10}, {"thousands of commands", [](Src& s) { periodic(s, 1, 30, 2000, 12000); }, 8, 10}, {"more than 65536 of a kind", [](Src& s) { periodic(s, 1, 3, 400000, 600000); }, 1, 10}, {"transfers without a gap", [](Src& s) { periodic(s, 1, 4, 100000, 250000, 60); }, 2, 10}};
    return pbt::pbt_main(c, v, p);
}
