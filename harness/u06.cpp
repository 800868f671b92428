// Deferred implicit commands against a list of events.
#include "pbt.hpp"
#include <DRAMPower/util/ImplicitCommandHandler.h>
using namespace DRAMPower; using pbt::Src; using pbt::eq;
struct Ev { uint64_t t; int id; };
struct Model { std::vector<Ev> q; void add(uint64_t t, int id) { q.push_back({t, id}); }
    std::vector<int> run(uint64_t t, uint64_t& last) { std::vector<int> r; while (true) { int best = -1; for (std::size_t i = 0; i < q.size(); ++i) if (q[i].t <= t && (best < 0 || q[i].t < q[best].t)) best = int(i); if (best < 0) return r; r.push_back(q[best].id); last = q[best].t; q.erase(q.begin() + best); } } };
struct Ctx { std::vector<int> log; };
template <bool WITH> struct Sut;
template <> struct Sut<true> { ImplicitCommandHandler<Ctx> h; void add(uint64_t t, int id) { h.addImplicitCommand(t, [id](Ctx& c) { c.log.push_back(id); }); } std::vector<int> run(uint64_t t, uint64_t& l) { Ctx c; h.processImplicitCommandQueue(c, t, l); return c.log; } };
static std::vector<int>* g_log;
template <> struct Sut<false> { ImplicitCommandHandler<void> h; void add(uint64_t t, int id) { h.addImplicitCommand(t, [id] { g_log->push_back(id); }); } std::vector<int> run(uint64_t t, uint64_t& l) { std::vector<int> r; g_log = &r; h.processImplicitCommandQueue(t, l); return r; } };
template <bool WITH> static void go(Src& s) {
    struct P { Sut<WITH> h; Model m; uint64_t last = 0, mlast = 0; }; std::vector<P> ps(1); unsigned n = 1 + s.below(40), ran = 0, ties = 0; int id = 0; uint64_t now = 0; uint64_t range = s.pick<uint64_t>({3, 20, 1000, 1ull << 40});
    auto cmp = [&](P& p, uint64_t t, bool probe) { Sut<WITH> h = p.h; Model m = p.m; uint64_t a = p.last, b = p.mlast; auto x = probe ? h.run(t, a) : p.h.run(t, a); auto y = probe ? m.run(t, b) : p.m.run(t, b); if (x != y) { std::string e = "executed at " + std::to_string(t) + ":"; for (int i : x) e += " " + std::to_string(i); e += " expected:"; for (int i : y) e += " " + std::to_string(i); throw pbt::Fail(e); } eq(a, b, "time of the last executed command"); if (!probe) { p.last = a; p.mlast = b; ran += x.size(); } };
    for (unsigned i = 0; i < n; ++i) {
        P& p = ps[s.below(ps.size())];
        switch (s.below(6)) {
        case 0: case 1: case 2: { unsigned k = 1 + s.below(s.chance(1, 240) ? 600 : 4); while (k--) { uint64_t t = now + s.below(range); if (!p.m.q.empty() && s.chance(1, 4)) { t = p.m.q[s.below(p.m.q.size())].t; ++ties; } s << "  add " << id << " at " << t << "\n"; p.h.add(t, id); p.m.add(t, id); ++id; } break; }
        case 3: now += s.below(range); s << "  run to " << now << "\n"; cmp(p, now, false); break;
        case 4: if (!p.m.q.empty()) { now = std::max(now, p.m.q[s.below(p.m.q.size())].t - s.below(2)); s << "  run to " << now << "\n"; cmp(p, now, false); } break;
        default: if (ps.size() < 4) { s << "  copy\n"; P c = p; if (s.chance(1, 2)) { P d; d.h.add(now, 999); d = std::move(c); c = d; } ps.push_back(c); } else { s << "  assign\n"; P c = ps[s.below(ps.size())]; p = c; } break;
        }
        for (auto& q : ps) { eq(q.h.h.implicitCommandCount(), q.m.q.size(), "pending commands"); if (s.chance(1, 4)) cmp(q, now + s.below(range), true); }
    }
    for (auto& q : ps) cmp(q, ~0ull, false); s.interesting(ran > 1 && ties ? ran : 0);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "U06"; p.quick_cases = 2700000; p.thorough_cases = 20000000;
    p.rule = "random additions (with equal times and times in the past of other entries), partial executions, copies and assignments of queues of deferred commands, with and without a context; non-trivial when several commands ran and some shared a time";
    p.assumptions = {"deferred commands do not add commands while they run"};
    p.scenarios = {{"with a context", go<true>, 1, 2}, {"without a context", go<false>, 1, 2}};
    return pbt::pbt_main(c, v, p);
}
