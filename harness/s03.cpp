// Statistics records: comparison, addition, writing and reading.
#include "statcmp.hpp"
using namespace vf;
using nlohmann::json;
static uint64_t num(Src& s) { return s.chance(1, 4) ? 0 : s.chance(1, 6) ? s.below(1ull << 62) : s.below(100000); }
static Stats rnd(Src& s, std::size_t nb, std::size_t nr) { Stats x; x.bank.resize(nb); x.rank_total.resize(nr); for (auto& f : fields(x)) *f.p = num(s); return x; }
static void show(Src& s, Stats x) { if (s.verbose) for (auto& f : fields(x)) s << f.n << "=" << *f.p << " "; s << "\n"; }
static void equality(Src& s) {
    Stats a = rnd(s, s.below(4), s.below(3)), b = a; show(s, a); CHECK_MSG(a == b, "a record differs from its copy"); auto f = fields(b); std::size_t k = s.below(f.size()); uint64_t old = *f[k].p; *f[k].p = old ^ (1ull << s.below(64)); s << "changed " << f[k].n << "\n"; CHECK_MSG(!(a == b) && !(b == a), "records that differ in " << f[k].n << " compare equal"); *f[k].p = old; CHECK_MSG(a == b, "restored record differs");
    Stats c = a; if (s.chance(1, 2)) c.bank.emplace_back(); else c.rank_total.emplace_back(); CHECK_MSG(!(a == c) && !(c == a), "records of different size compare equal"); s.interesting();
}
static void addition(Src& s) {
    std::size_t nb = s.below(4), nr = s.below(3), mb = s.chance(1, 3) ? s.below(5) : nb, mr = s.chance(1, 3) ? s.below(4) : nr; Stats a = rnd(s, nb, nr), b = rnd(s, mb, mr), w; show(s, a); show(s, b);
    w.bank.resize(std::max(nb, mb)); w.rank_total.resize(std::max(nr, mr)); Stats a2 = a, b2 = b; a2.bank.resize(w.bank.size()); b2.bank.resize(w.bank.size()); a2.rank_total.resize(w.rank_total.size()); b2.rank_total.resize(w.rank_total.size());
    auto x = fields(a2), y = fields(b2), z = fields(w); for (std::size_t i = 0; i < z.size(); ++i) *z[i].p = *x[i].p + *y[i].p; Stats keep = b; Stats g = a; auto& r = (g += b); CHECK_MSG(&r == &g, "+= does not return its target"); sameStats(g, w, "sum of two records"); sameStats(b, keep, "right operand");
    Stats h = b; h += a; sameStats(h, g, "sum in the other order"); Stats z0; Stats q = a; q += z0; sameStats(q, a, "adding an empty record"); Stats c = rnd(s, nb, nr), l = a, m = b; l += b; l += c; m += c; Stats n = a; n += m; sameStats(l, n, "grouping of three sums"); s.interesting();
    // bus activity: sum and multiples
    DRAMPower::util::bus_stats_t p = a.readBus, o = b.writeBus, t = p; t += o; auto u = p + o; BS P = conv(p), O = conv(o); P += O; eqBus(conv(t), P, "+= of bus activity"); eqBus(conv(u), P, "+ of bus activity"); 
    DRAMPower::util::bus_stats_t d; d.ones = s.below(1 << 30); d.zeroes = s.below(1 << 30); d.bit_changes = s.below(1 << 30); d.ones_to_zeroes = s.below(1 << 30); d.zeroes_to_ones = s.below(1 << 30); uint64_t k = s.below(64); eqBus(conv(double(k) * d), conv(d) * k, "multiple of bus activity");
}
static void roundTrip(Src& s) {
    Stats a = rnd(s, 1 + s.below(3), 1 + s.below(2)); show(s, a);
    std::stringstream st; std::vector<const DRAMPower::util::bus_stats_t*> bs{&a.readBus, &a.writeBus, &a.commandBus, &a.clockStats}; for (auto& c : a.bank) c.serialize(st); for (auto& c : a.rank_total) c.serialize(st); for (auto* b : bs) b->serialize(st);
    Stats g = rnd(s, a.bank.size(), a.rank_total.size()); for (auto& c : g.bank) c.deserialize(st); for (auto& c : g.rank_total) c.deserialize(st); for (auto* b : {&g.readBus, &g.writeBus, &g.commandBus, &g.clockStats}) b->deserialize(st);
    CHECK_MSG(st.good() && st.peek() == EOF, "reading did not consume exactly what was written"); Stats w = a; Stats g2 = g; w.wClockStats = g2.wClockStats; w.readDBI = g2.readDBI; w.writeDBI = g2.writeDBI; w.togglingStats = g2.togglingStats; w.readDQSStats = g2.readDQSStats; w.writeDQSStats = g2.writeDQSStats; sameStats(g, w, "read back");
    // JSON: every number under its own name, and back
    json j = a; Stats b = j.get<Stats>(); sameStats(b, a, "JSON round trip"); b = json::parse(j.dump()).get<Stats>(); sameStats(b, a, "JSON text round trip");
    for (auto& f : fields(a)) { std::string path = "/" + f.n; for (auto& ch : path) if (ch == '.' || ch == '[') ch = '/'; std::string q; for (char ch : path) if (ch != ']') q += ch; auto rp = q.find("/rank/"); if (rp == 0) q = "/rank_total" + q.substr(5); CHECK_MSG(j.contains(json::json_pointer(q)), "JSON lacks " << q); eq(j.at(json::json_pointer(q)).get<uint64_t>(), *f.p, "JSON " + q); } s.interesting();
}
// Statistics of a device survive JSON and keep giving the same energies.
static void device(Src& s) {
    Spec sp = gen_ispec(s); IfRun r(s, sp, std::nullopt, {}); unsigned n = 1 + s.below(30); for (unsigned i = 0; i < n; ++i) r.step(); uint64_t T = std::max(r.g.now + r.g.delta(), r.busyUntil()); Stats a = r.d->getWindowStats(T); json j = a; Stats b = json::parse(j.dump()).get<Stats>(); sameStats(b, a, "JSON round trip of device statistics"); sameEnergy(r.d->calcCoreEnergyStats(b), r.d->calcCoreEnergy(T), "energy of read-back statistics"); s.interesting(r.g.tr.size());
}
int main(int c, char** v) {
    pbt::Property p; p.id = "S03"; p.quick_cases = 480000; p.thorough_cases = 2000000;
    p.rule = "random statistics records (also of different sizes, single-bit differences in one field) and statistics of random histories; equality, addition, binary and JSON form compared field by field through an independent list of all fields; every case is non-trivial";
    p.assumptions = {"binary form covers bank, rank and bus records"};
    p.scenarios = {{"equality", equality, 2, 1}, {"addition", addition, 2, 1}, {"writing and reading", roundTrip, 2, 1}, {"device statistics", device, 1, 1}};
    return pbt::pbt_main(c, v, p);
}
