// Totals, aggregation and the JSON form of energies.
#include "statcmp.hpp"
using namespace vf;
using nlohmann::json;
static double bankTotal(const DRAMPower::energy_info_t& e) { double t = 0; for (auto& k : numbers(e)) if (k.first != "PRE_RDA" && k.first != "PRE_WRA") t += k.second; return t; }   // automatic precharges are already part of PRE
static void rules(Src& s, const DRAMPower::energy_t& e) {
    double mag = 0, sum = 0; std::map<std::string, double> col;
    for (auto& b : e.bank_energy) { double t = bankTotal(b), m = 0; for (auto& k : numbers(b)) { m += std::fabs(k.second); col[k.first] += k.second; } near(b.total(), t, "bank total", m); sum += t; mag += m; if (t != 0) s.interesting(); }
    for (auto& k : numbers(e)) { sum += k.second; mag += std::fabs(k.second); }
    near(e.total(), sum, "total energy against the sum of its parts", mag);
    auto ag = e.aggregated_bank_energy(); for (auto& k : numbers(ag)) near(k.second, col[k.first] + (k.first == "BG_ACT" ? e.E_bg_act_shared : 0), "aggregated " + k.first, mag);
    json_t j; e.to_json(j); eq(j.size(), numbers(e).size() + 1, "number of JSON keys"); for (auto& k : numbers(e)) { CHECK_MSG(j.contains(k.first), "JSON lacks " << k.first); eq(j[k.first].get<double>(), k.second, "JSON " + k.first); }
    auto& arr = j["BankEnergy"]; eq(arr.size(), e.bank_energy.size(), "JSON bank entries");
    for (std::size_t i = 0; i < arr.size(); ++i) { auto n = numbers(e.bank_energy[i]); eq(arr[i].size(), n.size(), "JSON bank keys"); for (auto& k : n) { CHECK_MSG(arr[i].contains(k.first), "JSON bank " << i << " lacks " << k.first); eq(arr[i][k.first].get<double>(), k.second, "JSON bank " + std::to_string(i) + " " + k.first); } }
    // printing and reading the document again keeps the numbers
    auto k = json::parse(j.dump()); CHECK_MSG(k == j, "JSON text does not read back to the same document");
}
static void rules(const DRAMPower::interface_energy_info_t& e) {
    IfE g = conv(e); near(e.total(), g.total(), "interface total"); json_t j; e.to_json(j); eq(j.size(), std::size_t(2), "interface JSON keys");
    eq(j["controller"]["dynamicEnergy"].get<double>(), g.cd, "JSON controller dynamic"); eq(j["controller"]["staticEnergy"].get<double>(), g.cs, "JSON controller static"); eq(j["dram"]["dynamicEnergy"].get<double>(), g.dd, "JSON dram dynamic"); eq(j["dram"]["staticEnergy"].get<double>(), g.ds, "JSON dram static");
}
static void values(Src& s) {
    DRAMPower::energy_t e(1 + s.below(40)); bool one = s.chance(1, 3); uint64_t k = s.below(e.bank_energy.size() * 15 + 6), i = 0;
    auto v = [&](double& x) { if (one && i++ != k) return; if (s.chance(1, 4)) return; x = s.real(-1, 1) * std::pow(10.0, -double(s.below(15))); };
    for (auto& b : e.bank_energy) for (double* x : {&b.E_act, &b.E_pre, &b.E_bg_act, &b.E_bg_pre, &b.E_RD, &b.E_WR, &b.E_RDA, &b.E_WRA, &b.E_pre_RDA, &b.E_pre_WRA, &b.E_ref_AB, &b.E_ref_PB, &b.E_ref_SB, &b.E_ref_2B, &b.E_ref_DB}) v(*x);
    for (double* x : {&e.E_bg_act_shared, &e.E_PDNA, &e.E_PDNP, &e.E_sref, &e.E_dsm, &e.E_refab}) v(*x);
    if (s.verbose) { json_t j; e.to_json(j); s << j.dump() << "\n"; }
    rules(s, e); s.interesting();
    DRAMPower::energy_info_t a = e.bank_energy.front(), b = e.bank_energy.back(), c = a; auto& r = (c += b); CHECK_MSG(&r == &c, "operator+= does not return its target"); auto x = numbers(a), y = numbers(b), z = numbers(c); for (std::size_t q = 0; q < x.size(); ++q) eq(z[q].second, x[q].second + y[q].second, "sum of two bank energies, " + x[q].first);
    auto rnd = [&] { DRAMPower::interface_energy_info_t f; for (double* p : {&f.controller.dynamicEnergy, &f.controller.staticEnergy, &f.dram.dynamicEnergy, &f.dram.staticEnergy}) *p = s.chance(1, 4) ? 0 : s.real(0, 1); return f; };
    auto f = rnd(), g = rnd(), h = f + g; rules(f); rules(h); IfE p = conv(f), q = conv(g), t = conv(h); eq(t.cs, p.cs + q.cs, "sum: controller static"); eq(t.cd, p.cd + q.cd, "sum: controller dynamic"); eq(t.ds, p.ds + q.ds, "sum: dram static"); eq(t.dd, p.dd + q.dd, "sum: dram dynamic");
    auto f2 = f; f2 += g; IfE t2 = conv(f2); CHECK_MSG(t2.cs == t.cs && t2.cd == t.cd && t2.ds == t.ds && t2.dd == t.dd, "+= and + of interface energies differ"); auto w = f.dram + g.controller; eq(w.dynamicEnergy, p.dd + q.cd, "sum of two sides: dynamic"); eq(w.staticEnergy, p.ds + q.cs, "sum of two sides: static");
}
static void history(Src& s, GenOpt o) {
    Spec sp = gen_ispec(s); std::optional<Toggle> t; if (s.chance(1, 3)) t = gen_toggle(s); IfRun r(s, sp, t, o); unsigned n = 1 + s.below(60);
    auto query = [&](uint64_t T) { T = std::max(T, r.busyUntil()); s << "  query " << T << "\n"; r.g.now = T; auto st = r.d->getWindowStats(T); auto e = r.d->calcCoreEnergy(T); auto f = r.d->calcInterfaceEnergy(T); rules(s, e); rules(f);
        near(r.d->getTotalEnergy(T), e.total() + f.total(), "total of core and interface"); sameEnergy(r.d->calcCoreEnergyStats(st), e, "energy of the statistics"); IfE a = conv(r.d->calcInterfaceEnergyStats(st)), b = conv(f); CHECK_MSG(a.cs == b.cs && a.cd == b.cd && a.ds == b.ds && a.dd == b.dd, "interface energy of the statistics differs"); };
    for (unsigned i = 0; i < n; ++i) { if (!r.step()) continue; if (s.chance(1, 8)) query(r.g.now + r.g.delta()); }
    query(r.g.now + r.g.delta());
}
int main(int c, char** v) {
    pbt::Property p; p.id = "C06"; p.quick_cases = 45000; p.thorough_cases = 1500000;
    p.rule = "random energy records (all components, or a single one non-zero) and energies of random histories; totals, aggregation, sums and JSON compared with sums over the named components; non-trivial when some bank had energy";
    p.assumptions = {"automatic precharges are part of the precharge energy and not added again"};
    p.scenarios = {{"random energies", values, 2, 1}, {"energies of a history", [](Src& s) { history(s, {}); }, 1, 1}};
    return pbt::pbt_main(c, v, p);
}
