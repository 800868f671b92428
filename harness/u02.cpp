// Interval counters, clocks and toggling lines against lists of intervals.
#include "pbt.hpp"
#include <DRAMPower/util/cycle_stats.h>
#include <DRAMPower/util/clock.h>
#include <DRAMPower/util/bus_types.h>
#include <DRAMPower/util/pending_stats.h>
using namespace DRAMPower; using namespace DRAMPower::util; using pbt::Src; using pbt::eq;
template <typename T> static T reload(const T& x, T fresh) { std::stringstream s(std::ios::in | std::ios::out | std::ios::binary); x.serialize(s); fresh.deserialize(s); eq(std::size_t(s.tellg()), s.str().size(), "bytes read back"); return fresh; }
// ---- interval counter: count is the sum of the closed intervals and the explicitly added amounts
static void interval(Src& s) {
    using I = interval_counter<uint64_t>; bool open = s.chance(1, 2); uint64_t now = s.below(40), sum = 0, from = now; bool closed = false; uint64_t end = 0; bool started = open;
    I c = open ? I(now) : I(); s << (open ? "open from " + std::to_string(now) : std::string("never opened")) << "\n";
    auto check = [&](const char* w) {
        eq(c.is_open(), open, std::string(w) + ": open"); eq(c.is_closed(), closed, std::string(w) + ": closed"); eq(c.get_count(), sum, std::string(w) + ": count"); eq(c.get_start(), started ? from : 0, std::string(w) + ": start"); eq(c.get_end(), closed ? end : 0, std::string(w) + ": end");
        uint64_t q[] = {0, from, now, now + 1, now + 1 + s.below(1000), s.below(now + 2)};
        for (uint64_t t : q) eq(c.get_count_at(t), sum + (open && t > from ? t - from : 0), std::string(w) + ": count at " + std::to_string(t));
    };
    check("constructed"); unsigned n = 1 + s.below(20), ev = 0;
    for (unsigned i = 0; i < n; ++i) {
        now += s.chance(1, 3) ? 0 : s.chance(1, 10) ? s.below(1ull << 40) : s.below(30); const char* w = "";
        switch (s.below(8)) {
        case 0: case 1: { w = "close"; uint64_t got = c.close_interval(now); eq(got, open ? now - from : 0, "length of the closed interval"); if (open) { sum += now - from; end = now; open = false; closed = true; ++ev; } break; }
        case 2: w = "start"; c.start_interval(now); from = now; open = started = true; closed = false; break;
        case 3: w = "start unless open"; c.start_interval_if_not_running(now); if (!open) { from = now; open = started = true; closed = false; } else ++ev; break;
        case 4: w = "reset"; c.reset_interval(); open = closed = started = false; break;
        case 5: { w = "add"; uint64_t k = s.below(100); c.add(k); sum += k; break; }
        case 6: { w = "save and restore"; I other(s.below(50)); if (s.chance(1, 2)) { other.close_interval(60); other.add(7); } c = reload(c, other); ++ev; break; }
        default: { w = "copy"; I d(c), e; e = d; d.close_interval(now); d.add(99); I f(std::move(e)); c = f; break; }
        }
        s << "  " << now << " " << w << "\n"; check(w);
    }
    s.interesting(ev);
}
// ---- clock: rate half-periods per cycle while it runs
static void clocks(Src& s) {
    std::size_t rate = s.pick<std::size_t>({2, 1, 4, 8, 16, 3}); bool run = s.chance(1, 2); Clock c(rate, !run); uint64_t now = 0, from = 0, acc = 0; s << "rate " << rate << (run ? " running\n" : " stopped\n"); unsigned ev = 0;
    auto check = [&](uint64_t t, const char* w) { uint64_t want = acc + (run ? (t - from) * rate / 2 : 0); auto x = c.get_stats_at(t); std::string p = std::string(w) + " at " + std::to_string(t) + ": ";
        eq(x.ones, want, p + "high half-periods"); eq(x.zeroes, want, p + "low half-periods"); eq(x.zeroes_to_ones, want, p + "rises"); eq(x.ones_to_zeroes, want, p + "falls"); eq(x.bit_changes, 2 * want, p + "changes"); };
    unsigned n = 1 + s.below(20);
    for (unsigned i = 0; i < n; ++i) {
        now += s.chance(1, 8) ? s.below(1ull << 40) : s.below(20); const char* w = "query";
        switch (s.below(3)) {
        case 0: if (run) { if (now == from) ++now; c.stop(now); acc += (now - from) * rate / 2; run = false; w = "stop"; } else { c.start(now); from = now; run = true; w = "start"; } ++ev; break;
        case 1: { Clock o(rate, s.chance(1, 2)); c = reload(c, o); w = "restored"; break; }
        default: break;
        }
        s << "  " << now << " " << w << "\n"; check(now, w); check(now + s.below(9), w);
    }
    s.interesting(ev);
}
// ---- activity records form a vector space over the counts
static void records(Src& s) {
    using R = bus_stats_t; auto gen = [&] { R r; r.ones = s.below(1000); r.zeroes = s.below(1000); r.bit_changes = s.below(1000); r.ones_to_zeroes = s.below(1000); r.zeroes_to_ones = s.below(1000); return r; };
    auto same = [&](const R& a, uint64_t o, uint64_t z, uint64_t b, uint64_t f, uint64_t r, const char* w) { eq(a.ones, o, std::string(w) + " ones"); eq(a.zeroes, z, std::string(w) + " zeroes"); eq(a.bit_changes, b, std::string(w) + " changes"); eq(a.ones_to_zeroes, f, std::string(w) + " falls"); eq(a.zeroes_to_ones, r, std::string(w) + " rises"); };
    R a = gen(), b = gen(); uint64_t k = s.below(50); R sum = a + b, x = a, ka = k * a, ak = a * k, y = a; x += b; y *= k;
    for (const R* p : {&sum, &x}) same(*p, a.ones + b.ones, a.zeroes + b.zeroes, a.bit_changes + b.bit_changes, a.ones_to_zeroes + b.ones_to_zeroes, a.zeroes_to_ones + b.zeroes_to_ones, "sum");
    for (const R* p : {&ka, &ak, &y}) same(*p, k * a.ones, k * a.zeroes, k * a.bit_changes, k * a.ones_to_zeroes, k * a.zeroes_to_ones, "multiple");
    R l = reload(a, b); same(l, a.ones, a.zeroes, a.bit_changes, a.ones_to_zeroes, a.zeroes_to_ones, "restored"); eq(l == a, true, "a restored record equals the saved one");
    R d = a; switch (s.below(5)) { case 0: ++d.ones; break; case 1: ++d.zeroes; break; case 2: ++d.bit_changes; break; case 3: ++d.ones_to_zeroes; break; default: ++d.zeroes_to_ones; } eq(d == a, false, "records that differ in one count are equal");
    nlohmann::json j = a; R back; j.get_to(back); eq(back == a, true, "a record read back from JSON");
    PendingStats<R> p; eq(p.isPending(), false, "initially pending"); uint64_t t = s.below(1000); p.setPendingStats(t, a); bool cl = s.chance(1, 2); if (cl) p.clear(); PendingStats<R> q; if (s.chance(1, 2)) q.setPendingStats(5, b); q = reload(p, q); eq(q.isPending(), !cl, "pending flag"); eq(q.getTimestamp(), t, "pending time"); eq(q.getStats() == a, true, "pending record");
    s.interesting();
}
int main(int c, char** v) {
    pbt::Property p; p.id = "U02"; p.quick_cases = 6750000; p.thorough_cases = 60000000;
    p.rule = "random sequences of opening, closing, resetting, adding, copying and saving on interval counters and of starting, stopping and saving on clocks, compared after every step at past, present and future times with a list of intervals; activity records compared field by field; non-trivial when at least two intervals were closed, restored or a clock switched";
    p.assumptions = {"times do not run backwards", "a clock runs for at least one cycle before it is stopped", "restarting an open interval discards its running part"};
    p.scenarios = {{"interval counter", interval, 4, 2}, {"clock", clocks, 2, 2}, {"activity records", records, 1, 1}};
    return pbt::pbt_main(c, v, p);
}
