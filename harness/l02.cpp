// The command line tool reports what the library computes for the same specification, configuration and trace.
#include "cli.hpp"
#include "statcmp.hpp"
using namespace vf;
static json memspec(Src& s, const Spec& sp) { static const char* id[] = {"DDR4", "DDR5", "LPDDR4", "LPDDR5", "LPDDR6"}; json j = sp.j; if (!j.contains("memoryType")) j["memoryType"] = id[int(sp.std)]; json o; o["memspec"] = j; if (s.chance(1, 4)) o["comment"] = "x"; return o; }
static json config(Src& s, const std::optional<Toggle>& t) {
    json j; j["useToggleRate"] = t.has_value(); j["simconfig"] = json::object(); Toggle u = t ? *t : Toggle{0.3, 0.4, 0.5, 0.6, 1, 0};
    if (t || s.chance(1, 2)) j["simconfig"]["toggleRateDefinition"] = {{"togglingRateRead", u.trR}, {"togglingRateWrite", u.trW}, {"dutyCycleRead", u.dcR}, {"dutyCycleWrite", u.dcW}, {"idlePatternRead", u.idleR ? "H" : "L"}, {"idlePatternWrite", u.idleW ? "H" : "L"}}; else if (s.chance(1, 2)) j["simconfig"]["toggleRateDefinition"] = nullptr;
    return j;
}
static const char* cmdName(C c) { static const char* n[] = {"NOP", "RD", "WR", "RDA", "WRA", "ACT", "PRE", "REFB", "REFP2B", "REFDB", "PRESB", "REFSB", "PREA", "REFA", "PDEA", "PDEP", "PDXA", "PDXP", "SREFEN", "SREFEX", "DSMEN", "DSMEX", "END"}; return n[int(c)]; }
static std::string trace(const std::vector<Cmd>& tr) {
    std::ostringstream o; for (auto& c : tr) { o << c.t << "," << cmdName(c.c) << "," << c.rank << "," << c.bg << "," << c.bank << "," << c.row << "," << c.col; if (!c.data.empty()) { o << ",0x"; for (auto b : c.data) { char t[3]; std::snprintf(t, 3, "%02x", b); o << t; } } o << "\n"; } return o.str();
}
static void number(const json& j, const std::string& k, double v, const std::string& w) { if (!j.is_object() || !j.contains(k) || !j[k].is_number()) throw pbt::Fail(w + ": " + k + " missing"); double g = j[k].get<double>(); if (g != v) eq(g, v, w + ": " + k); }
static double total(const DRAMPower::energy_t& e) { double t = 0; for (auto& kv : numbers(e)) t += kv.second; for (auto& b : e.bank_energy) for (auto& kv : numbers(b)) if (kv.first != "PRE_RDA" && kv.first != "PRE_WRA") t += kv.second; return t; }
static void checkJson(const fs::path& f, Dram& d, const Spec& sp, const DRAMPower::energy_t& e, const IfE& i) {
    json j = json::parse(get(f), nullptr, false); if (j.is_discarded()) throw pbt::Fail("the result is not JSON: " + get(f).substr(0, 200)); auto p = params(sp);
    number(j, "RankCount", double(p.ranks), "result"); number(j, "DeviceCount", double(p.devices), "result"); number(j, "BankCount", double(p.banks), "result"); eq(j.size(), std::size_t(6), "entries of the result"); near(j["TotalEnergy"].get<double>(), total(e) + i.cs + i.cd + i.ds + i.dd, "total energy", 1e-30, 1e-9);
    auto& c = j["CoreEnergy"]; for (auto& kv : numbers(e)) number(c, kv.first, kv.second, "core"); auto& b = c["BankEnergy"]; eq(b.size(), std::size_t(p.ranks * p.devices * p.banks), "banks listed"); eq(c.size(), std::size_t(7), "entries of the core energy");
    std::size_t k = 0; for (uint64_t r = 0; r < p.ranks; ++r) for (uint64_t v = 0; v < p.devices; ++v) for (uint64_t n = 0; n < p.banks; ++n, ++k) { std::string w = "rank " + std::to_string(r) + " device " + std::to_string(v) + " bank " + std::to_string(n); number(b[k], "Rank", double(r), w); number(b[k], "Device", double(v), w); number(b[k], "Bank", double(n), w); for (auto& kv : numbers(e.bank_energy.at(k))) number(b[k], kv.first, kv.second, w); eq(b[k].size(), std::size_t(18), w + ": entries"); }
    auto& q = j["InterfaceEnergy"]; number(q["controller"], "staticEnergy", i.cs, "controller"); number(q["controller"], "dynamicEnergy", i.cd, "controller"); number(q["dram"], "staticEnergy", i.ds, "device"); number(q["dram"], "dynamicEnergy", i.dd, "device");
}
// Console output: every number follows its name.
static std::string after(const std::string& t, const std::string& key) { auto p = t.find(key); if (p == std::string::npos) throw pbt::Fail("\"" + key + "\" not printed"); return t.substr(p + key.size()); }
static void printed(const std::string& line, const std::string& name, double v, const std::string& w) {
    std::istringstream i(line); std::string t; while (i >> t) if (t == name + ":") { std::string n; i >> n; double g = std::strtod(n.c_str(), nullptr); if (g != v) eq(g, v, w + ": printed " + name); return; } throw pbt::Fail(w + ": " + name + " not printed in: " + line);
}
static std::string lineAfter(const std::string& t, const std::string& key) { std::string r = after(t, key); return r.substr(0, r.find('\n')); }
static void checkText(const std::string& out, const Spec& sp, const DRAMPower::energy_t& e, const IfE& i) {
    auto p = params(sp); std::size_t k = 0; std::string t = "\n" + out; for (uint64_t r = 0; r < p.ranks; ++r) for (uint64_t v = 0; v < p.devices; ++v) for (uint64_t n = 0; n < p.banks; ++n, ++k) { std::string id = std::to_string(r) + "," + std::to_string(v) + "," + std::to_string(n); std::string l = lineAfter(t, "\n" + id + " -> "); for (auto& kv : numbers(e.bank_energy.at(k))) printed(l, kv.first, kv.second, id); }
    std::string l = lineAfter(t, "Shared energy -> "); for (auto& kv : numbers(e)) printed(l, kv.first, kv.second, "shared"); l = lineAfter(t, "with bg_act_shared -> "); auto sum = numbers(DRAMPower::energy_info_t{}); for (auto& b : e.bank_energy) { auto x = numbers(b); for (std::size_t m = 0; m < x.size(); ++m) sum[m].second += x[m].second; } sum[2].second += e.E_bg_act_shared; for (auto& kv : sum) printed(l, kv.first, kv.second, "cumulated");
    l = lineAfter(t, "Controller: "); printed(l, "dynamicEnergy", i.cd, "controller"); printed(l, "staticEnergy", i.cs, "controller"); l = lineAfter(t, "DRAM: "); printed(l, "dynamicEnergy", i.dd, "device"); printed(l, "staticEnergy", i.ds, "device"); near(std::strtod(lineAfter(t, "Total Energy -> ").c_str(), nullptr), total(e) + i.cs + i.cd + i.ds + i.dd, "total energy", 1e-30, 1e-9);
}
static void whole(Src& s) {
    Scratch dir; SpecOpt so; Spec sp = gen_ispec(s, so); std::optional<Toggle> tg; if (s.chance(1, 4)) tg = gen_toggle(s); IfRun r(s, sp, std::nullopt, {}, false); r.g.now = 1; unsigned n = 1 + s.below(40); for (unsigned i = 0; i < n; ++i) r.step();
    auto tr = r.g.tr; if (s.chance(2, 3)) { Cmd e; e.t = std::max(r.g.now, r.busyUntil()) + r.g.delta(); e.c = C::END; tr.push_back(e); s << "  end at " << e.t << "\n"; } if (tr.empty()) throw pbt::Discard{};
    for (auto& c : tr) if (c.bits % 8) throw pbt::Discard{};
    auto d = make_dram(sp, tg); for (auto& c : tr) d->doCommand(conv(c)); uint64_t T = d->getLastCommandTime(); if (tr.back().c == C::END) eq(T, tr.back().t, "time of the last command"); auto e = d->calcCoreEnergy(T); IfE i = conv(d->calcInterfaceEnergy(T));
    put("m.json", memspec(s, sp).dump()); std::string cfg = config(s, tg).dump(); if (s.chance(1, 4)) cfg = "// comment\n" + cfg; put("c.json", cfg); put("t.csv", trace(tr)); bool file = s.chance(1, 2), lng = s.chance(1, 2); s << (file ? "  result to a file\n" : "  result to the console\n");
    std::vector<std::string> a{lng ? "--config" : "-c", "c.json", lng ? "--memspec" : "-m", "m.json", lng ? "--trace" : "-t", "t.csv"}; if (file) { a.push_back(lng ? "--json" : "-j"); a.push_back("o.json"); if (s.chance(1, 2)) put("o.json", std::string(s.below(200000), 'x')); }
    auto q = run_cli(a, "log"); if (q.code != 0) throw pbt::Fail("exit status " + std::to_string(q.code) + ": " + q.out.substr(0, 300)); if (file) checkJson("o.json", *d, sp, e, i); else checkText(q.out, sp, e, i);
    s.interesting(tr.size() > 3);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "L02"; p.quick_cases = 24000; p.thorough_cases = 300000;
    p.rule = "random specification, configuration (payloads or toggling rates) and legal history written to files and given to the tool's own main function, the JSON or console result compared number by number with the energies the library computes for the same commands; non-trivial when the trace has more than three commands";
    p.assumptions = {"specification files are read through the stand-in for DRAMUtils", "payloads are whole bytes"};
    p.scenarios = {{"whole runs", whole, 1, 1}};
    return pbt::pbt_main(c, v, p);
}
