// Commands that do not fit the memory are refused, also in release builds.
#include "cli.hpp"
#include "statcmp.hpp"
using namespace vf;
static std::string trace(const std::vector<Cmd>& tr) {
    std::ostringstream o; for (auto& c : tr) { o << c.t << "," << cname(c.c) << "," << c.rank << "," << c.bg << "," << c.bank << "," << c.row << "," << c.col; if (!c.data.empty()) { o << ",0x"; for (auto b : c.data) { char t[3]; std::snprintf(t, 3, "%02x", b); o << t; } } o << "\n"; } return o.str();
}
static std::vector<C> ofRank(Std) { return {C::PREA, C::REFA, C::PDEA, C::PDEP, C::PDXA, C::PDXP, C::SREFEN, C::SREFEX}; }
static std::vector<C> ofBank(Std d) {
    std::vector<C> v{C::ACT, C::PRE, C::RD, C::WR, C::RDA, C::WRA};
    if (d == Std::LPDDR4 || d == Std::LPDDR5) v.push_back(C::REFB); if (d == Std::LPDDR5) v.push_back(C::REFP2B); if (d == Std::LPDDR6) v.push_back(C::REFDB); if (d == Std::DDR5) { v.push_back(C::REFSB); v.push_back(C::PRESB); }
    return v;
}
// A command that names a rank or bank the memory does not have, or carries a payload that is no burst (LPDDR6).
static Cmd misfit(Src& s, const Spec& sp, IfRun& r, uint64_t t, bool& state) {
    auto p = params(sp); auto bk = ofBank(sp.std), rk = ofRank(sp.std); Cmd k; k.t = t; state = true; auto beyond = [&](uint64_t n) { return n + (s.chance(1, 2) ? s.below(3) : s.chance(1, 2) ? s.below(100000) : ~0ull - n - s.below(9)); };
    unsigned how = s.below(sp.std == Std::LPDDR6 ? 3 : 2);
    if (how == 2) { k.c = s.pick(std::vector<C>{C::RD, C::WR, C::RDA, C::WRA}); k.rank = s.below(p.ranks); k.bank = s.below(p.banks); k.data.assign(1 + s.below(70), 0xa5); if (k.data.size() == 32 || k.data.size() == 64) k.data.pop_back(); k.bits = k.data.size() * 8; state = false; s << "  payload of " << k.bits << " bits\n"; }
    else if (how == 1) { std::vector<C> all = bk; all.insert(all.end(), rk.begin(), rk.end()); if (sp.std == Std::LPDDR5) { all.push_back(C::DSMEN); all.push_back(C::DSMEX); } k.c = s.pick(all); k.rank = beyond(p.ranks); k.bank = s.chance(3, 4) ? s.below(p.banks) : beyond(p.banks); }
    else { k.c = s.pick(bk); k.rank = s.below(p.ranks); k.bank = beyond(p.banks); }
    k.bg = s.below(8); if (Gen::isRead(k.c) || Gen::isWrite(k.c)) { if (k.data.empty() && s.chance(1, 2)) burst(r.g, k, r.im, false); }
    s << k << " does not fit\n"; return k;
}
static void library(Src& s) {
    Spec sp = gen_ispec(s); IfRun r(s, sp, std::nullopt, {}, false); auto quiet = make_dram(sp); std::size_t f = 0; unsigned n = 2 + s.below(30), tried = 0;
    auto feed = [&] { for (; f < r.g.tr.size(); ++f) { quiet->doCommand(conv(r.g.tr[f])); } };
    for (unsigned i = 0; i < n; ++i) {
        r.step(); feed(); if (!s.chance(1, 4)) continue;
        bool state; Cmd k = misfit(s, sp, r, r.g.now, state); ++tried; bool core = state && s.chance(1, 3); std::string got;
        try { if (core) r.d->doCoreCommand(conv(k)); else r.d->doCommand(conv(k)); throw pbt::Fail("the command was accepted"); } catch (const pbt::Fail&) { throw; } catch (const std::exception& x) { got = x.what(); }
        if (!state) return s.interesting(tried);           // the core half has been processed already
    }
    uint64_t T = std::max(r.g.now + r.g.delta(), r.busyUntil()); sameDevice(*r.d, *quiet, T, "after refused commands", false); s.interesting(tried);
}
static void tool(Src& s) {
    Scratch dir; Spec sp = gen_ispec(s); IfRun r(s, sp, std::nullopt, {}, false); r.g.now = 1; unsigned n = 1 + s.below(20); for (unsigned i = 0; i < n; ++i) r.step(); auto tr = r.g.tr; for (auto& c : tr) if (c.bits % 8) throw pbt::Discard{};
    std::size_t at = s.below(tr.size() + 1); Trace head(tr.begin(), tr.begin() + long(at)); bool state; Cmd k = misfit(s, sp, r, at ? tr[at - 1].t : 1, state); if (k.bits % 8) throw pbt::Discard{}; if (k.rank > ~0ull / 2 || k.bank > ~0ull / 2) throw pbt::Discard{}; head.push_back(k); bool rest = s.chance(1, 2); if (rest) head.insert(head.end(), tr.begin() + long(at), tr.end());
    if (k.data.empty() && (Gen::isRead(k.c) || Gen::isWrite(k.c))) throw pbt::Discard{};
    static const char* id[] = {"DDR4", "DDR5", "LPDDR4", "LPDDR5", "LPDDR6"}; json j; j["memspec"] = sp.j; if (!sp.j.contains("memoryType")) j["memspec"]["memoryType"] = id[int(sp.std)]; put("m.json", j.dump()); put("c.json", "{\"useToggleRate\": false, \"simconfig\": {}}"); put("t.csv", trace(head)); bool old = s.chance(1, 2); if (old) put("o.json", "old");
    auto q = run_cli({"-c", "c.json", "-m", "m.json", "-t", "t.csv", "-j", "o.json"}, "log"); if (q.code == 0) throw pbt::Fail("the tool accepted the trace"); CHECK_MSG(!q.out.empty(), "no message"); if (fs::exists("o.json") && get("o.json").find("TotalEnergy") != std::string::npos) throw pbt::Fail("a result was written for a refused trace"); s.interesting(head.size());
}
int main(int c, char** v) {
    pbt::Property p; p.id = "L04"; p.quick_cases = 60000; p.thorough_cases = 1500000;
    p.rule = "legal history with commands in between that name a rank or bank the memory does not have (just beyond, far beyond, near the largest number) or carry a payload that is no LPDDR6 burst, given to the library and, as a trace, to the command line tool, both built like a release (no assertions) with address and undefined-behaviour sanitizers; the library must throw and end with the results of a device that never saw them, the tool must end with a message and a status other than zero; non-trivial when at least one such command was given";
    p.assumptions = {"data bus inversion is off for payloads that are no burst"};
    p.scenarios = {{"library", library, 3, 1}, {"command line tool", tool, 1, 1}};
    return pbt::pbt_main(c, v, p);
}
