#include "check_iface.hpp"
using namespace vf;
static void bus(Src& s, SpecOpt so, GenOpt o) {
    Spec sp = gen_ispec(s, so); IfRun r(s, sp, std::nullopt, o, true);
    unsigned n = o.minCmds + s.below(o.maxCmds - o.minCmds + 1);
    auto query = [&](uint64_t T) { s << "  query " << T << "\n"; r.g.now = T; compare(r.d->getWindowStats(T), r.im.expect(T), P_DATA, T); };
    for (unsigned i = 0; i < n; ++i) { if (!r.step()) continue; if (s.chance(1, 5)) query(r.g.now + (s.chance(1, 3) ? 0 : s.chance(1, 2) ? s.below(12) : r.g.delta())); }
    query(r.g.now + r.g.delta()); s.interesting(r.im.dataLoads);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "I01"; p.quick_cases = 360000; p.thorough_cases = 1500000;
    p.rule = "random specification (1 to 80 devices) and random legal history with random read and write payloads, back to back and with gaps; at random query times (also inside a burst) ones, zeroes and transitions of both data buses are compared with a bit-by-bit simulation; non-trivial when at least two data transfers were issued";
    p.assumptions = {"no overlapping transfers on one direction of the data bus"};
    GenOpt o; o.allow = [](C c) { return c == C::ACT || c == C::RD || c == C::WR || c == C::RDA || c == C::WRA || c == C::PRE; }; GenOpt all;
    p.scenarios = {{"row and column commands", [o](Src& s) { bus(s, {}, o); }, 3, 2}, {"mixed history", [all](Src& s) { bus(s, {}, all); }, 1, 2}};
    return pbt::pbt_main(c, v, p);
}
