// Symmetries of the model: relabelling ranks or banks, shifting time, dropping other ranks, adding devices.
#include "statcmp.hpp"
using namespace vf;
static Trace record(IfRun& r, unsigned n) { for (unsigned i = 0; i < n; ++i) r.step(); return r.g.tr; }
static void feed(Dram& d, const Trace& t) { for (auto& k : t) d.doCommand(conv(k)); }
template <typename T> static std::vector<T> shuffled(Src& s, std::vector<T> v) { for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[s.below(i)]); return v; }
static std::vector<uint64_t> iota(uint64_t n) { std::vector<uint64_t> v(n); for (uint64_t i = 0; i < n; ++i) v[i] = i; return v; }
static uint64_t endOf(IfRun& r) { return std::max(r.g.now, r.busyUntil()) + r.g.delta(); }

static void ranks(Src& s) {
    SpecOpt so; so.maxRanks = 4; Spec sp = gen_ispec(s, so); IfRun r(s, sp, std::nullopt, {}); Trace t = record(r, 2 + s.below(50)), u = t; auto perm = shuffled(s, iota(r.im.p.ranks)); for (auto& k : u) k.rank = perm[k.rank];
    for (std::size_t i = 0; i < perm.size(); ++i) s << "  rank " << i << " becomes " << perm[i] << "\n"; auto d = make_dram(sp); feed(*d, u); uint64_t T = endOf(r); Stats a = r.d->getWindowStats(T), b = d->getWindowStats(T), c = b; uint64_t B = r.im.p.banks;
    for (uint64_t i = 0; i < perm.size(); ++i) { c.rank_total[i] = b.rank_total[perm[i]]; for (uint64_t k = 0; k < B; ++k) c.bank[i * B + k] = b.bank[perm[i] * B + k]; if (perm[i] != i) s.interesting(); }
    sameStats(a, c, "relabelled ranks"); auto x = r.d->calcCoreEnergy(T), y = d->calcCoreEnergy(T), z = y; uint64_t N = r.im.p.devices * B; for (uint64_t i = 0; i < perm.size(); ++i) for (uint64_t k = 0; k < N; ++k) z.bank_energy[i * N + k] = y.bank_energy[perm[i] * N + k];
    sameEnergy(x, z, "relabelled ranks", 1e-9); auto f = conv(r.d->calcInterfaceEnergy(T)), g = conv(d->calcInterfaceEnergy(T)); near(f.cs, g.cs, "relabelled ranks: static controller energy"); near(f.cd, g.cd, "relabelled ranks: dynamic controller energy"); near(f.ds, g.ds, "relabelled ranks: static device energy"); near(f.dd, g.dd, "relabelled ranks: dynamic device energy");
}
// Relabelling that keeps bank groups and the pairing of banks.
static void banks(Src& s) {
    Spec sp = gen_spec(s); auto p = params(sp); GenOpt o; auto d = make_dram(sp), e = make_dram(sp); Gen g(s, sp, o); g.run(); std::vector<uint64_t> m(p.banks);
    if (sp.std == Std::LPDDR5 || sp.std == Std::LPDDR6) { if (p.banks == 16) { auto lo = shuffled(s, iota(8)); std::vector<bool> sw(8); for (auto&& x : sw) x = s.chance(1, 2); for (uint64_t b = 0; b < 16; ++b) { uint64_t k = b % 8; m[b] = lo[k] + 8 * ((b / 8) ^ uint64_t(sw[k])); } } else m = shuffled(s, iota(p.banks)); }
    else if (sp.std == Std::DDR5) { auto in = shuffled(s, iota(p.perGroup)); std::vector<std::vector<uint64_t>> gr; for (uint64_t i = 0; i < p.perGroup; ++i) gr.push_back(shuffled(s, iota(p.groups))); for (uint64_t b = 0; b < p.banks; ++b) m[b] = in[b % p.perGroup] + p.perGroup * gr[b % p.perGroup][b / p.perGroup]; }
    else m = shuffled(s, iota(p.banks));
    for (auto k : g.tr) { d->doCoreCommand(conv(k)); k.bank = m[k.bank]; e->doCoreCommand(conv(k)); }
    for (uint64_t i = 0; i < p.banks; ++i) if (m[i] != i) { s << "  bank " << i << " becomes " << m[i] << "\n"; s.interesting(); }
    uint64_t T = g.now + g.delta(); Stats a = d->getWindowStats(T), b = e->getWindowStats(T), c = b; for (uint64_t r = 0; r < p.ranks; ++r) for (uint64_t k = 0; k < p.banks; ++k) c.bank[r * p.banks + k] = b.bank[r * p.banks + m[k]];
    sameStats(a, c, "relabelled banks"); auto x = d->calcCoreEnergy(T), y = e->calcCoreEnergy(T), z = y; for (uint64_t q = 0; q < p.ranks * p.devices; ++q) for (uint64_t k = 0; k < p.banks; ++k) z.bank_energy[q * p.banks + k] = y.bank_energy[q * p.banks + m[k]]; sameEnergy(x, z, "relabelled banks");
}
static void shift(Src& s) {
    Spec sp = gen_ispec(s); std::optional<Toggle> tg; if (s.chance(1, 3)) tg = gen_toggle(s); IfRun r(s, sp, tg, {}, !tg); r.g.now = 1; Trace t = record(r, 2 + s.below(50)), u = t; uint64_t D = s.chance(1, 4) ? s.below(1ull << 36) : s.below(500); for (auto& k : u) k.t += D; s << "  shift by " << D << "\n"; s.interesting(t.size() * (D > 0));
    auto d = make_dram(sp, tg); feed(*d, u); uint64_t T = endOf(r); Stats a = r.d->getWindowStats(T), b = d->getWindowStats(T + D); auto& p = r.im.p; bool hi = r.im.idleH; uint64_t w = r.im.width;
    auto idle = [&](DRAMPower::util::bus_stats_t& x, uint64_t bits, bool h) { (h ? x.ones : x.zeroes) += bits; };
    for (auto& k : a.bank) k.cycles.pre += D; for (auto& k : a.rank_total) k.cycles.pre += D;
    idle(a.commandBus, D * caRate(sp.std) * r.im.ca.width, hi); if (!tg) { idle(a.readBus, D * p.DR * w, hi); idle(a.writeBus, D * p.DR * w, hi); }
    else { idle(a.togglingStats.read, D * p.DR * w, tg->idleR); idle(a.togglingStats.write, D * p.DR * w, tg->idleW); }
    auto run = [&](DRAMPower::util::bus_stats_t& x, const Strobe& k) { BS y = k.at(D) * 2; x.ones += y.ones; x.zeroes += y.zeroes; x.bit_changes += y.bc; x.ones_to_zeroes += y.o2z; x.zeroes_to_ones += y.z2o; };
    Strobe ck; ck.rate = 2; ck.on = {{0, INF}}; run(a.clockStats, ck); if (r.im.wckAlways) { Strobe wk = r.im.wck; wk.on = {{0, INF}}; if ((T * wk.rate) % 2 == 0) run(a.wClockStats, wk); else { a.wClockStats = b.wClockStats; } }
    for (uint64_t i = 0; i < r.im.rdbi.size(); ++i) { idle(a.readDBI, D * p.DR, hi); idle(a.writeDBI, D * p.DR, hi); }
    sameStats(b, a, "history shifted by " + std::to_string(D));
}
// A rank's statistics depend on the commands of that rank only.
static void isolation(Src& s) {
    SpecOpt so; so.maxRanks = 4; Spec sp = gen_spec(s, so); auto p = params(sp); if (p.ranks < 2) throw pbt::Discard{}; GenOpt o; o.maxCmds = 90; auto d = make_dram(sp); Gen g(s, sp, o); g.run(); for (auto& k : g.tr) d->doCoreCommand(conv(k)); uint64_t T = g.now + g.delta(), R = s.below(p.ranks); Stats a = d->getWindowStats(T); s << "  only rank " << R << "\n";
    auto e = make_dram(sp); uint64_t n = 0; for (auto& k : g.tr) if (k.rank == R) { e->doCoreCommand(conv(k)); ++n; } Stats b = e->getWindowStats(T), c = b;
    for (uint64_t i = 0; i < p.ranks; ++i) if (i != R) { c.rank_total[i] = a.rank_total[i]; for (uint64_t k = 0; k < p.banks; ++k) c.bank[i * p.banks + k] = a.bank[i * p.banks + k]; }
    if (n < g.tr.size()) s.interesting(n); sameStats(a, c, "without the other ranks");
    // its banks' energies too, and the shared energies are those of the ranks on their own
    auto x = d->calcCoreEnergy(T), y = e->calcCoreEnergy(T), z = x; uint64_t N = p.devices * p.banks; for (uint64_t k = 0; k < N; ++k) z.bank_energy[R * N + k] = y.bank_energy[R * N + k];
    for (uint64_t i = 0; i < p.ranks; ++i) if (i != R) { auto q = make_dram(sp); for (auto& k : g.tr) if (k.rank == i) q->doCoreCommand(conv(k)); auto w = q->calcCoreEnergy(T); y.E_bg_act_shared += w.E_bg_act_shared; y.E_PDNA += w.E_PDNA; y.E_PDNP += w.E_PDNP; y.E_sref += w.E_sref; y.E_dsm += w.E_dsm; y.E_refab += w.E_refab; }
    z.E_bg_act_shared = y.E_bg_act_shared; z.E_PDNA = y.E_PDNA; z.E_PDNP = y.E_PDNP; z.E_sref = y.E_sref; z.E_dsm = y.E_dsm; z.E_refab = y.E_refab; sameEnergy(x, z, "without the other ranks", 1e-9);
    // and a rank that receives nothing is precharged throughout
    for (uint64_t i = 0; i < p.ranks; ++i) if (i != R) { DRAMPower::CycleStats idle; idle.cycles.pre = T; c.rank_total[i] = idle; for (uint64_t k = 0; k < p.banks; ++k) c.bank[i * p.banks + k] = idle; }
    sameStats(b, c, "idle ranks");
}
// Devices of a rank share its activity: each has the energy of a single device.
static void devices(Src& s) {
    Spec sp = gen_spec(s); uint64_t n = 1 + s.below(6); sp.j["memarchitecturespec"]["nbrOfDevices"] = n; Spec one = sp; one.j["memarchitecturespec"]["nbrOfDevices"] = 1; auto p = params(sp); GenOpt o; auto d = make_dram(sp), e = make_dram(one); Gen g(s, sp, o); g.run();
    for (auto& k : g.tr) { d->doCoreCommand(conv(k)); e->doCoreCommand(conv(k)); } uint64_t T = g.now + g.delta(); { Stats a = d->getWindowStats(T), b = e->getWindowStats(T), q = b; q.bank = a.bank; q.rank_total = a.rank_total; sameStats(q, b, "statistics with " + std::to_string(n) + " devices"); } auto x = d->calcCoreEnergy(T), y = e->calcCoreEnergy(T), z = x;
    eq(x.bank_energy.size(), p.ranks * n * p.banks, "bank energies"); for (uint64_t r = 0; r < p.ranks; ++r) for (uint64_t v = 0; v < n; ++v) for (uint64_t b = 0; b < p.banks; ++b) z.bank_energy[(r * n + v) * p.banks + b] = y.bank_energy[r * p.banks + b];
    z.E_bg_act_shared = y.E_bg_act_shared * n; z.E_PDNA = y.E_PDNA * n; z.E_PDNP = y.E_PDNP * n; z.E_sref = y.E_sref * n; z.E_dsm = y.E_dsm * n; z.E_refab = y.E_refab * n; sameEnergy(x, z, std::to_string(n) + " devices", 1e-9); if (n > 1) s.interesting(g.tr.size());
}
// Core energy is linear in the supply voltages' currents' time base: doubling tCK doubles every energy,
// doubling all voltages doubles every energy.
static void scaling(Src& s) {
    Spec sp = gen_spec(s), v = sp; double f = s.pick<double>({2, 4, 0.5}); bool volt = s.chance(1, 2); auto& P = v.j["mempowerspec"]; if (volt) { for (auto& kv : P.items()) if (kv.key()[0] == 'v' && kv.key() != "vddq") kv.value() = kv.value().get<double>() * f; } else v.j["memtimingspec"]["tCK"] = sp.td("tCK") * f;
    s << "  " << (volt ? "voltages" : "clock period") << " times " << f << "\n"; GenOpt o; auto d = make_dram(sp), e = make_dram(v); Gen g(s, sp, o); g.run(); for (auto& k : g.tr) { d->doCoreCommand(conv(k)); e->doCoreCommand(conv(k)); } uint64_t T = g.now + g.delta();
    auto x = d->calcCoreEnergy(T), y = e->calcCoreEnergy(T); sameStats(d->getWindowStats(T), e->getWindowStats(T), "statistics"); for (auto& b : x.bank_energy) for (double* q : {&b.E_act, &b.E_pre, &b.E_bg_act, &b.E_bg_pre, &b.E_RD, &b.E_WR, &b.E_RDA, &b.E_WRA, &b.E_pre_RDA, &b.E_pre_WRA, &b.E_ref_AB, &b.E_ref_PB, &b.E_ref_SB, &b.E_ref_2B, &b.E_ref_DB}) *q *= f;
    for (double* q : {&x.E_bg_act_shared, &x.E_PDNA, &x.E_PDNP, &x.E_sref, &x.E_dsm, &x.E_refab}) *q *= f; sameEnergy(x, y, "scaled", 1e-9); s.interesting(g.tr.size());
}
int main(int c, char** v) {
    pbt::Property p; p.id = "C08"; p.quick_cases = 360000; p.thorough_cases = 3000000;
    p.rule = "random specification and legal history run together with a transformed twin (ranks or banks relabelled, time shifted, other ranks dropped, devices multiplied, voltages or clock period scaled); results must transform accordingly; non-trivial when the transformation is not the identity and commands were issued";
    p.assumptions = {"shifted histories start at cycle 1", "relabelling of banks keeps bank groups and paired banks"};
    p.scenarios = {{"relabelled ranks", ranks, 1, 1}, {"relabelled banks", banks, 1, 1}, {"shifted history", shift, 1, 1}, {"other ranks dropped", isolation, 2, 1}, {"number of devices", devices, 1, 1}, {"voltage and clock scaling", scaling, 1, 1}};
    return pbt::pbt_main(c, v, p);
}
