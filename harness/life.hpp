// A life: everything that is done to one device from construction on, recorded so that it can be repeated elsewhere.
#pragma once
#include "statcmp.hpp"
namespace vf {
// all numbers a device reports at a time, in a fixed order
inline std::vector<double> report(Dram& d, uint64_t T) {
    std::vector<double> v; auto e = d.calcCoreEnergy(T); for (auto& b : e.bank_energy) for (auto& k : numbers(b)) v.push_back(k.second); for (auto& k : numbers(e)) v.push_back(k.second); v.push_back(e.total());
    IfE f = conv(d.calcInterfaceEnergy(T)); for (double x : {f.cs, f.cd, f.ds, f.dd}) v.push_back(x); v.push_back(d.getTotalEnergy(T)); Stats st = d.getWindowStats(T); for (auto& q : fields(st)) v.push_back(double(*q.p)); return v;
}
struct Life {
    struct Act { std::string what; std::function<void(std::unique_ptr<Dram>&, std::vector<std::vector<double>>&)> run; };
    Spec sp; std::optional<Toggle> tg; std::vector<Act> acts; std::vector<std::vector<double>> seen; uint64_t commands = 0, kinds = 0, end = 0;
    void perform(std::unique_ptr<Dram>& d, std::size_t i, std::vector<std::vector<double>>& out) const { acts[i].run(d, out); }
    std::vector<std::vector<double>> replay() const { auto d = make_dram(sp, tg); std::vector<std::vector<double>> out; for (auto& a : acts) a.run(d, out); return out; }
};
using Answers = std::vector<std::vector<double>>;
struct LifeOpt { unsigned maxSteps = 30; bool copies = true, checkpoints = true; unsigned burstiness = 1; };
inline void sameAnswers(const Life& l, const std::vector<std::vector<double>>& a, const std::vector<std::vector<double>>& b, const std::string& w) {
    eq(a.size(), b.size(), w + ": number of answers"); for (std::size_t i = 0; i < a.size(); ++i) { eq(a[i].size(), b[i].size(), w + ": numbers in answer " + std::to_string(i)); for (std::size_t k = 0; k < a[i].size(); ++k) if (!(a[i][k] == b[i][k])) eq(a[i][k], b[i][k], w + ": answer " + std::to_string(i) + ", number " + std::to_string(k)); }
}
// Generates a life and lives it once.
inline Life live(Src& s, const SpecOpt& so, LifeOpt o) {
    Life l; l.sp = gen_ispec(s, so); if (s.chance(1, 3)) l.tg = gen_toggle(s); if (l.sp.std == Std::LPDDR6 && s.chance(1, 3)) l.sp.j["memarchitecturespec"]["WCKalwaysOn"] = true;
    GenOpt g; IfRun r(s, l.sp, l.tg, g, !l.tg); bool lp6 = l.sp.std == Std::LPDDR6; bool ext = true; uint64_t gated = 0; std::set<int> kinds; std::size_t f = 0;
    auto add = [&](std::string w, auto fn, bool now) { l.acts.push_back({w, fn}); s << "  " << w << "\n"; if (now) l.acts.back().run(r.d, l.seen); };
    auto commands = [&] { for (; f < r.g.tr.size(); ++f) { Cmd k = r.g.tr[f]; kinds.insert(int(k.c)); ++l.commands; l.acts.push_back({"command", [k](std::unique_ptr<Dram>& d, auto&) { d->doCommand(conv(k)); }}); } };
    unsigned n = 1 + s.below(o.maxSteps);
    for (unsigned i = 0; i < n; ++i) {
        if (ext && s.chance(1, 8)) {
            if (!l.tg && s.chance(1, 2) && r.im.canDbi()) { bool on = !r.im.dbi; uint64_t t = r.g.now; r.setDbi(on); add("", [on, t](std::unique_ptr<Dram>& d, auto&) { d->getExtensionManager().withExtension<DRAMPower::extensions::DBI>([&](auto& x) { x.enable(t, on); }); }, false); }
            else if (lp6 && s.chance(1, 2)) { uint16_t a = uint16_t(s.below(1 << 16)), b = uint16_t(s.below(1 << 16)); r.setMeta(a, b); add("", [a, b](std::unique_ptr<Dram>& d, auto&) { d->getExtensionManager().withExtension<DRAMPower::extensions::MetaData>([&](auto& x) { x.setMetaData(a, b); }); }, false); }
            else if (lp6 && r.im.wckAlways && s.chance(1, 2)) { bool on = !r.im.parity; r.setParity(on); add("", [on](std::unique_ptr<Dram>& d, auto&) { set_parity(*d, on); }, false); }
            else if (lp6 && r.g.now > gated) { gated = r.g.now; bool on = !r.clockOn; uint64_t t = gated; r.setClock(t, on); add("", [on, t](std::unique_ptr<Dram>& d, auto&) { set_clock(*d, t, on); }, false); }
        }
        if (!r.step()) continue; commands(); if (!s.chance(1, 4)) continue;
        uint64_t T = std::max(r.g.now + (s.chance(1, 3) ? 0 : r.g.delta()), r.busyUntil());
        switch (s.below(4)) {
        case 0: case 1: add("query " + std::to_string(T), [T](std::unique_ptr<Dram>& d, auto& out) { out.push_back(report(*d, T)); }, true); r.g.now = T; break;
        case 2: if (o.checkpoints) { auto* was = r.d.get(); auto sp = l.sp; auto tg = l.tg; bool lead = false; add("checkpoint and restore", [sp, tg, lead](std::unique_ptr<Dram>& d, auto&) { if (!d->isSerializable()) return; std::stringstream st; d->serialize(st); auto x = make_dram(sp, tg); x->deserialize(st); d = std::move(x); }, true); if (r.d.get() != was) ext = true; } break;
        default: if (o.copies) { int how = int(s.below(4)); auto sp = l.sp; auto tg = l.tg; ext = false; add("copy or move", [sp, tg, how](std::unique_ptr<Dram>& d, auto&) { auto c = clone(sp, *d, how, (how & 1) ? make_dram(sp, tg) : nullptr); d = std::move(c); }, true); }
        }
    }
    uint64_t T = std::max(r.g.now + r.g.delta(), r.busyUntil()); add("query " + std::to_string(T), [T](std::unique_ptr<Dram>& d, auto& out) { out.push_back(report(*d, T)); }, true); l.end = T; l.kinds = kinds.size(); return l;
}
// A process that was forked before any device was used. Given the choices of a life, it lives that life alone
// and sends the answers back.
class Pristine {
    int m_req[2], m_ans[2]; pid_t m_pid;
public:
    Pristine(const SpecOpt& so, const LifeOpt& o) {
        if (::pipe(m_req) || ::pipe(m_ans)) throw std::runtime_error("pipe");
        m_pid = ::fork();
        if (m_pid == 0) {
            ::close(m_req[1]); ::close(m_ans[0]); ::alarm(60); uint64_t n = 0; auto get = [&](void* d, std::size_t len) { std::size_t q = 0; while (q < len) { ssize_t r = ::read(m_req[0], static_cast<char*>(d) + q, len - q); if (r < 0 && errno == EINTR) continue; if (r <= 0) ::_exit(0); q += std::size_t(r); } };
            get(&n, 8); std::vector<uint64_t> c(n); if (n) get(c.data(), 8 * n); else ::_exit(0); c.pop_back(); std::string out;
            try { Src s(c); Life l = live(s, so, o); for (auto& a : l.seen) { double n = double(a.size()); out.append(reinterpret_cast<char*>(&n), 8); out.append(reinterpret_cast<const char*>(a.data()), a.size() * 8); } } catch (...) { out = "x"; }
            pbt::write_all(m_ans[1], out); ::_exit(0);
        }
        ::close(m_req[0]); ::close(m_ans[1]);
    }
    Pristine(const Pristine&) = delete;
    Answers answers(std::vector<uint64_t> choices) {
        choices.push_back(0); choices.insert(choices.begin(), choices.size()); pbt::write_all(m_req[1], std::string(reinterpret_cast<char*>(choices.data()), choices.size() * 8)); ::close(m_req[1]); m_req[1] = -1; std::string raw = pbt::read_all(m_ans[0]); Answers v; if (raw.size() % 8) throw pbt::Fail("a device used alone fails");
        for (std::size_t p = 0; p < raw.size();) { double n; std::memcpy(&n, raw.data() + p, 8); p += 8; std::vector<double> a(static_cast<std::size_t>(n)); std::memcpy(a.data(), raw.data() + p, a.size() * 8); p += a.size() * 8; v.push_back(a); }
        if (v.empty()) throw pbt::Fail("a device used alone gives no answer"); return v;
    }
    ~Pristine() { if (m_req[1] >= 0) { uint64_t none = 0; pbt::write_all(m_req[1], std::string(reinterpret_cast<char*>(&none), 8)); ::close(m_req[1]); } ::close(m_ans[0]); int st; while (::waitpid(m_pid, &st, 0) < 0 && errno == EINTR) {} }
};
// Lives a life here and in a process of its own; the answers recorded are those of the latter.
inline Life live_apart(Src& s, const SpecOpt& so, LifeOpt o, Pristine& apart, const std::string& what) {
    std::size_t a = s.used(); Life l = live(s, so, o); auto& c = s.choices(); std::vector<uint64_t> part; for (std::size_t i = a; i < s.used(); ++i) part.push_back(i < c.size() ? c[i] : 0);
    Answers w = apart.answers(part); sameAnswers(l, l.seen, w, what + " against a process of its own"); l.seen = w; return l;
}
} // namespace vf
