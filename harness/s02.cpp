// Core and interface are independent halves.
#include "statcmp.hpp"
using namespace vf;
static void coreOnly(Stats& s) { Stats z; z.bank = s.bank; z.rank_total = s.rank_total; for (auto& k : z.rank_total) k.prepos = {}; s = z; }
static void ifOnly(Stats& s) { for (auto& b : s.bank) b = {}; for (auto& b : s.rank_total) { auto p = b.prepos; b = {}; b.prepos = p; } }
static void split(Src& s, GenOpt o, bool ext) {
    Spec sp = gen_ispec(s); std::optional<Toggle> t; if (!ext && s.chance(1, 3)) t = gen_toggle(s); IfRun r(s, sp, t, o, !t); auto core = make_dram(sp, t), ifc = make_dram(sp, t), mix = make_dram(sp, t), dep = make_dram(sp, t); uint64_t asked = 0;
    std::vector<Dram*> all{ifc.get(), mix.get(), dep.get()};
    auto dbi = [&](bool on) { if (!r.im.canDbi()) return; r.setDbi(on); for (auto* d : all) d->getExtensionManager().withExtension<DRAMPower::extensions::DBI>([&](auto& x) { x.enable(r.g.now, on); }); };
    if (ext) dbi(true);
    unsigned n = o.minCmds + s.below(o.maxCmds - o.minCmds + 1); std::size_t f = 0; Trace lag; bool coreLags = s.chance(1, 2); uint64_t last = 0;
    auto flush = [&](std::size_t k) { for (std::size_t i = 0; i < k && !lag.empty(); ++i) { auto c = conv(lag.front()); coreLags ? mix->doCoreCommand(c) : mix->doInterfaceCommand(c); lag.erase(lag.begin()); } };
    auto cmp = [&](uint64_t T) {
        r.g.now = T; flush(lag.size());
        // a query without a time asks for the time of the last command of either half
        if (last >= asked && s.chance(1, 2)) { Stats a = r.d->getWindowStats(last); sameStats(mix->getStats(), a, "query without a time, halves fed separately"); sameStats(dep->getStats(), a, "query without a time"); }
        asked = T; s << "  query " << T << "\n"; Stats a = r.d->getWindowStats(T), b = mix->getWindowStats(T); sameStats(b, a, "halves fed separately"); sameStats(dep->getWindowStats(T), a, "commands fed by either name of the operation"); near(dep->getTotalEnergy(T), r.d->getTotalEnergy(T), "total energy", 0, 1e-12);
        Stats c = core->getWindowStats(T), d = ifc->getWindowStats(T), ac = a, ai = a; coreOnly(ac); coreOnly(c); sameStats(c, ac, "core alone"); ifOnly(ai); ifOnly(d); sameStats(d, ai, "interface alone");
        sameEnergy(core->calcCoreEnergy(T), r.d->calcCoreEnergy(T), "core energy with the core alone");
        if (sp.std != Std::DDR4) { IfE x = conv(ifc->calcInterfaceEnergy(T)), y = conv(r.d->calcInterfaceEnergy(T)); CHECK_MSG(x.cs == y.cs && x.cd == y.cd && x.ds == y.ds && x.dd == y.dd, "interface energy with the interface alone differs"); }
        // an untouched half reports an idle device
        Stats idle = make_dram(sp, t)->getWindowStats(T), ii = idle, ci = core->getWindowStats(T); ifOnly(ii); ifOnly(ci); sameStats(ci, ii, "interface of a device that received core commands only"); Stats ic = ifc->getWindowStats(T); coreOnly(idle); coreOnly(ic); sameStats(ic, idle, "core of a device that received interface commands only"); };
    for (unsigned i = 0; i < n; ++i) {
        if (ext && s.chance(1, 8)) { flush(lag.size()); dbi(!r.im.dbi); }
        if (!r.step()) continue;
        for (; f < r.g.tr.size(); ++f) { auto& k = r.g.tr[f]; last = k.t; s.chance(1, 2) ? dep->doCoreInterfaceCommand(conv(k)) : dep->doCommand(conv(k)); core->doCoreCommand(conv(k)); ifc->doInterfaceCommand(conv(k)); if (s.chance(1, 2)) flush(1 + s.below(3)); coreLags ? mix->doInterfaceCommand(conv(k)) : mix->doCoreCommand(conv(k)); lag.push_back(k); eq(ifc->getLastCommandTime(), last, "time of the last interface command"); eq(core->getLastCommandTime(), last, "time of the last core command"); eq(mix->getLastCommandTime(), last, "time of the last command of either half"); }
        if (s.chance(1, 8)) { cmp(r.g.now + r.g.delta()); }
    }
    cmp(r.g.now + r.g.delta()); s.interesting(r.g.tr.size());
}
int main(int c, char** v) {
    pbt::Property p; p.id = "S02"; p.quick_cases = 45000; p.thorough_cases = 1000000;
    p.rule = "random legal history fed to five devices: whole commands, whole commands by either name of the operation, core halves only, interface halves only, and both halves with one lagging behind by a random number of commands; statistics and energies of each half must agree exactly; non-trivial when at least two commands were issued";
    p.assumptions = {"each half receives its commands in order"};
    GenOpt o, row; row.allow = [](C c) { return c == C::ACT || c == C::RD || c == C::WR || c == C::RDA || c == C::WRA || c == C::PRE; };
    p.scenarios = {{"mixed history", [o](Src& s) { split(s, o, false); }, 3, 2}, {"with inversion", [row](Src& s) { split(s, row, true); }, 1, 2}};
    return pbt::pbt_main(c, v, p);
}
