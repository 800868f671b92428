// Legal use never triggers undefined behaviour, a failed internal check or a meaningless number.
#include "life.hpp"
using namespace vf;
// Energies must be finite (a current below the background current may make one negative); a count that wrapped around below zero is far beyond any number these histories reach.
static void sane(const Life& l) { for (std::size_t i = 0; i < l.seen.size(); ++i) for (std::size_t k = 0; k < l.seen[i].size(); ++k) { double x = l.seen[i][k]; if (!(std::fabs(x) < 1e18)) throw pbt::Fail("answer " + std::to_string(i) + ", number " + std::to_string(k) + " is " + std::to_string(x)); } }
static void mixed(Src& s, SpecOpt so, unsigned steps) { LifeOpt o; o.maxSteps = steps; Life l = live(s, so, o); sane(l); s.interesting(l.commands >= 2 && l.kinds >= 2); }
// Everything that is shown to a user can be shown for every result.
static void shown(Src& s) {
    Spec sp = gen_ispec(s); std::optional<Toggle> t; if (s.chance(1, 3)) t = gen_toggle(s); IfRun r(s, sp, t, {}, !t); unsigned n = 1 + s.below(20); for (unsigned i = 0; i < n; ++i) r.step(); uint64_t T = std::max(r.g.now + r.g.delta(), r.busyUntil());
    auto st = r.d->getWindowStats(T); auto e = r.d->calcCoreEnergyStats(st); auto f = r.d->calcInterfaceEnergyStats(st); json_t j; e.to_json(j); json_t k; f.to_json(k); json_t m = st; for (auto* q : {&j, &k, &m}) CHECK_MSG(q->dump().find("null") == std::string::npos, "a number or entry is missing in the JSON form"); auto a = r.d->getCLIArchitectureConfig(); CHECK_MSG(a.rankCount * a.bankCount * a.deviceCount == e.bank_energy.size(), "the reported architecture has " << a.rankCount << "x" << a.bankCount << "x" << a.deviceCount << " banks, the result " << e.bank_energy.size()); s.interesting(r.g.tr.size());
}
// A checkpoint that was cut short is noticed: reading it ends, and the stream says that it failed.
static void cut(Src& s) {
    SpecOpt so; if (s.chance(3, 4)) so.stds = {Std::DDR4, Std::LPDDR4, Std::LPDDR5, Std::LPDDR6}; Spec sp = gen_ispec(s, so); std::optional<Toggle> t; if (s.chance(1, 4)) t = gen_toggle(s); GenOpt o; o.allow = [](C c) { return c == C::ACT || c == C::RD || c == C::WR || c == C::PRE; };
    auto life = [&](unsigned n) { IfRun r(s, sp, t, o, !t); r.setDbi(true); for (unsigned i = 0; i < n; ++i) r.step(); return std::move(r.d); };
    auto d = life(1 + s.below(12)); if (!d->isSerializable()) throw pbt::Discard{}; std::stringstream a; d->serialize(a); std::string all = a.str(); std::size_t n = s.below(all.size()); auto e = s.chance(1, 3) ? life(1 + s.below(8)) : make_dram(sp, t);
    s << "  checkpoint of " << all.size() << " bytes cut after " << n << "\n"; std::istringstream b(all.substr(0, n)); e->deserialize(b); eq(b.fail(), true, "the stream reports that the checkpoint is incomplete"); s.interesting(n > 0);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "R01"; p.quick_cases = 24000; p.thorough_cases = 2000000;
    p.rule = "random life of a device of any standard (commands with or without payload, toggling rates, inversion, metadata, parity, interface gating, queries, checkpoints, copies and moves; now and then a thousand commands) under address and undefined-behaviour sanitizers, container assertions and the library's own assertions; no report, exception or crash, and every number reported is finite and no count wrapped around; and checkpoints cut short at a random byte, whose reading has to end with a failed stream; non-trivial when at least two different commands were given, or a checkpoint was cut within";
    p.assumptions = {"no extension is used on a device after it was copied or moved: recorded defect"};
    SpecOpt big; big.maxRanks = 8; big.maxDevices = 8;
    p.scenarios = {{"mixed life", [](Src& s) { mixed(s, {}, 40); }, 20, 1}, {"large memory", [big](Src& s) { mixed(s, big, 60); }, 6, 1}, {"long life", [](Src& s) { mixed(s, {}, 1200); }, 1, 1}, {"results shown", shown, 5, 1}, {"checkpoint cut short", cut, 2, 1}};
    return pbt::pbt_main(c, v, p);
}
