// Devices do not influence each other, and results depend on nothing but what was done to the device.
#include <malloc.h>
#include <thread>
#include "life.hpp"
using namespace vf;
static std::vector<Life> lives(Src& s, unsigned k, unsigned steps) {
    LifeOpt o; o.maxSteps = steps; std::vector<Life> v; SpecOpt so; bool twins = s.chance(1, 3); if (twins) so.stds = {s.pick(std::vector<Std>{Std::DDR4, Std::DDR5, Std::LPDDR4, Std::LPDDR5, Std::LPDDR6})};
    std::vector<std::unique_ptr<Pristine>> apart; for (unsigned i = 0; i < k; ++i) apart.push_back(std::make_unique<Pristine>(so, o));
    for (unsigned i = 0; i < k; ++i) { s << "device " << i << "\n"; v.push_back(live_apart(s, so, o, *apart[i], "device " + std::to_string(i))); } return v;
}
static void interleaved(Src& s) {
    auto v = lives(s, 2 + s.below(3), 25); std::size_t k = v.size(); std::vector<std::unique_ptr<Dram>> d(k); std::vector<std::vector<std::vector<double>>> out(k); std::vector<std::size_t> at(k, 0); std::size_t left = 0; for (auto& l : v) left += l.acts.size(); s << "interleaved:";
    std::size_t run = 0, cur = 0, switches = 0;
    while (left) { if (run == 0) { cur = s.below(k); run = 1 + s.below(6); ++switches; s << " " << cur; } --run; if (at[cur] == v[cur].acts.size()) { run = 0; bool any = false; for (std::size_t i = 0; i < k; ++i) if (at[i] < v[i].acts.size()) { cur = i; any = true; break; } if (!any) break; }
        if (!d[cur]) d[cur] = make_dram(v[cur].sp, v[cur].tg); v[cur].perform(d[cur], at[cur]++, out[cur]); --left; if (at[cur] == v[cur].acts.size() && s.chance(1, 2)) d[cur].reset(); }
    s << "\n"; for (std::size_t i = 0; i < k; ++i) sameAnswers(v[i], out[i], v[i].seen, "device " + std::to_string(i) + " interleaved with others"); s.interesting(switches > 2);
}
static void threads(Src& s) {
    auto v = lives(s, 1 + s.below(3), 25); std::size_t k = v.size(), m = std::max<std::size_t>(k, 2 + s.below(3)); std::vector<std::vector<std::vector<double>>> out(m); std::vector<std::string> err(m); std::vector<std::thread> th;
    for (std::size_t i = 0; i < m; ++i) th.emplace_back([&, i] { try { out[i] = v[i % k].replay(); } catch (const std::exception& x) { err[i] = x.what(); if (err[i].empty()) err[i] = "exception"; } });
    for (auto& t : th) t.join(); for (std::size_t i = 0; i < m; ++i) { if (!err[i].empty()) throw pbt::Fail("in a thread: " + err[i]); sameAnswers(v[i % k], out[i], v[i % k].seen, "device " + std::to_string(i % k) + " in a thread of its own"); } s.interesting(m);
}
static void memory(Src& s) {
    auto v = lives(s, 1, 30); unsigned n = 1 + s.below(3);
    for (unsigned i = 0; i < n; ++i) { int b = int(1 + s.below(255)); s << "fresh memory filled with " << b << "\n"; mallopt(M_PERTURB, b); { std::vector<std::unique_ptr<char[]>> hold; unsigned q = s.below(20); for (unsigned j = 0; j < q; ++j) hold.emplace_back(new char[1 + s.below(5000)]); } std::vector<std::vector<double>> out; try { out = v[0].replay(); } catch (...) { mallopt(M_PERTURB, 0); throw; } mallopt(M_PERTURB, 0); sameAnswers(v[0], out, v[0].seen, "with other memory contents"); }
    s.interesting(v[0].commands);
}
static void again(Src& s) {
    auto v = lives(s, 2, 25); auto a = v[0].replay(); auto b = v[1].replay(); auto c = v[0].replay(); sameAnswers(v[0], a, v[0].seen, "repeated after another device"); sameAnswers(v[1], b, v[1].seen, "second device repeated"); sameAnswers(v[0], c, v[0].seen, "repeated again"); s.interesting(v[0].commands);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "R02"; p.quick_cases = 5000; p.thorough_cases = 600000;
    p.rule = "random lives of one to four devices of equal or different specifications (commands, switches, queries, checkpoints, copies), lived alone in a process of their own, after one another, repeated, interleaved in random order, in parallel threads (under the thread sanitizer) and with fresh memory filled with random bytes; every answer must be identical to that of the device that lived alone; non-trivial when there was something to interfere with";
    p.assumptions = {"each device is used by one thread at a time"};
    p.fresh = true;
    p.scenarios = {{"interleaved devices", interleaved, 4, 1}, {"parallel threads", threads, 3, 1}, {"memory contents", memory, 2, 1}, {"repeated", again, 1, 1}};
    return pbt::pbt_main(c, v, p);
}
