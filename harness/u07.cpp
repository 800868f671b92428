// The data bus inversion engine as a unit, and pins, against a beat-by-beat replay.
#include "pbt.hpp"
#include <DRAMPower/util/dbi.h>
#include <DRAMPower/util/pin.h>
using namespace DRAMPower; using namespace DRAMPower::util; using pbt::Src; using pbt::eq;
struct Call { uint64_t load, at; std::size_t idx; bool inv, read; bool operator==(const Call& o) const { return load == o.load && at == o.at && idx == o.idx && inv == o.inv && read == o.read; } };
static std::string show(const std::vector<Call>& v) { std::ostringstream o; for (auto& c : v) o << " (" << c.load << "," << c.at << "," << c.idx << "," << c.inv << (c.read ? ",r)" : ",w)"); return o.str(); }
// algorithm: 0 static, otherwise transition threshold + 1
template <typename T, std::size_t SUB> struct Ref {
    static constexpr std::size_t D = sizeof(T) * 8, CH = SUB * D; std::optional<std::size_t> width; std::size_t bl; bool high; std::size_t dyn; bool enable;
    struct Dir { bool init = false; uint64_t end = 0; std::vector<bool> inv; std::vector<T> data; } dir[2]; std::vector<T> out; bool lastRead = false;
    void reset(uint64_t t, bool r, std::vector<Call>& c) { auto& d = dir[r]; if (!d.init || t <= d.end) return; std::size_t n = d.inv.size(), per = width ? *width / CH : n, from = n - per; for (std::size_t k = from; k < n; ++k) { if (d.inv[k]) c.push_back({d.end, d.end, k - from, false, r}); d.inv[k] = false; } }
    bool update(uint64_t t, const std::vector<T>& data, bool r, std::vector<Call>& calls) {
        if (data.empty() || !enable) return false; reset(t, r, calls); auto& d = dir[r]; std::size_t n = data.size() / SUB, per = width ? *width / CH : 0; std::vector<T> sent = data; std::vector<bool> inv(n);
        for (std::size_t k = 0; k < n; ++k) {
            std::size_t ones = 0, change = 0; bool known = width.has_value();
            for (std::size_t j = k * SUB; j < (k + 1) * SUB; ++j) for (std::size_t b = 0; b < D; ++b) {
                bool x = data[j] >> b & 1; ones += x; if (!known) continue; bool p; std::size_t lane = per * SUB;
                if (j >= lane) p = sent[j - lane] >> b & 1; else if (d.init && d.end == t) p = d.data[d.data.size() - lane + j] >> b & 1; else p = high; change += x != p; }
            bool i = dyn ? known && change > dyn - 1 : high ? ones < CH - ones : CH - ones < ones; inv[k] = i; if (i) for (std::size_t j = k * SUB; j < (k + 1) * SUB; ++j) sent[j] = T(~sent[j]);
            calls.push_back({t, width ? t + k / per : t, width ? k % per : k, i, r});
        }
        d.init = true; d.end = t + (width ? data.size() * D / *width : bl); d.inv = inv; d.data = sent; out = sent; lastRead = r; return true;
    }
};
template <typename T, std::size_t SUB, PinState IDLE, typename A> static void engine(Src& s, std::size_t dyn) {
    using E = DBI<T, SUB, IDLE, A>; Ref<T, SUB> m; m.high = IDLE == PinState::H; m.dyn = dyn; m.bl = 1 + s.below(20); m.enable = s.chance(7, 8); if (s.chance(4, 5)) m.width = m.CH * (1 + s.below(4)); std::vector<Call> got, want;
    auto cb = [&](uint64_t a, uint64_t b, std::size_t i, bool v, bool r) { got.push_back({a, b, i, v, r}); }; auto make = [&](bool on) { return E(m.width, m.bl, cb, on); }; E e = make(m.enable); s << "chunk " << m.CH << " bits, " << (m.width ? "width " + std::to_string(*m.width) : "burst length " + std::to_string(m.bl)) << "\n";
    unsigned n = 1 + s.below(12), ev = 0; uint64_t now = 0, busy = 0; eq(e.getChunksPerWidth().has_value(), m.width.has_value(), "chunks per width known"); if (m.width) eq(*e.getChunksPerWidth(), *m.width / m.CH, "chunks per width"); eq(int(e.getIdlePattern()), int(IDLE), "idle pattern");
    for (unsigned i = 0; i < n; ++i) {
        got.clear(); want.clear();
        switch (s.below(8)) {
        case 0: { now = std::max(now, busy) + s.below(4); bool r = s.chance(1, 2); if (s.chance(1, 2)) { s << "  reset at " << now << "\n"; e.dispatchResetCallback(now); m.reset(now, true, want); m.reset(now, false, want); } else { s << "  nothing to transfer\n"; T x{}; eq(e.updateDBI(now, 0, &x, r).has_value(), false, "empty transfer"); eq(e.updateDBI(now, m.CH, nullptr, r).has_value(), false, "transfer without data"); } break; }
        case 1: { s << "  save and restore\n"; std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); e.serialize(ss); E o = make(!m.enable); if (s.chance(1, 2)) { std::vector<T> d(m.width ? 2 * *m.width / m.D : 2 * SUB, T(0x5a)); o.updateDBI(3, d.size() * m.D, d.data(), s.chance(1, 2)); } o.deserialize(ss); eq(std::size_t(ss.tellg()), ss.str().size(), "bytes read back"); e = o; got.clear(); break; }
        case 2: m.enable = s.chance(3, 4); e.enable(m.enable); break;
        default: {
            uint64_t gap = s.chance(1, 2) ? 0 : s.below(6); now = std::max(now, busy) + gap; std::size_t beats = 1 + s.below(s.chance(1, 3) ? 2 : 16); std::size_t per = m.width ? *m.width / m.D : SUB; std::vector<T> d(beats * per); unsigned style = s.below(3); for (auto& x : d) x = T(style == 0 ? s.raw64() : style == 1 ? (s.chance(1, 2) ? ~0ull : 0) ^ (1ull << s.below(64)) : s.pick<uint64_t>({0x0f0f0f0f0f0f0f0full, 0xf8, 0x1f1f, ~0ull, 0})); bool r = s.chance(1, 2);
            s << "  " << now << (r ? " read " : " write ") << beats << " beats:"; for (auto& x : d) s << " " << uint64_t(x); s << "\n"; auto p = e.updateDBI(now, d.size() * m.D, d.data(), r); bool did = m.update(now, d, r, want); eq(p.has_value(), did, "inversion performed");
            if (did) { ++ev; busy = m.dir[r].end; for (std::size_t k = 0; k < d.size(); ++k) eq(uint64_t((*p)[k]), uint64_t(m.out[k]), "sent word " + std::to_string(k)); eq(e.getInvertedDataSize(), d.size(), "size of the sent data"); if constexpr (sizeof(T) == 1) { auto [q, l] = e.getInvertedData(); eq(l, d.size(), "length of the sent data"); for (std::size_t k = 0; k < l; ++k) eq(int(q[k]), int(m.out[k]), "kept word"); }
                auto& st = r ? e.getInversionStateRead() : e.getInversionStateWrite(); for (std::size_t k = 0; k < d.size() / SUB; ++k) eq(bool(st[k]), bool(m.dir[r].inv[k]), "inversion of chunk " + std::to_string(k)); eq(r ? e.getInversionSizeRead() : e.getInversionSizeWrite(), d.size(), "inversion size"); } } }
        if (!(got == want)) throw pbt::Fail("callbacks" + show(got) + " expected" + show(want)); eq(e.isEnabled(), m.enable, "enabled");
        for (bool r : {false, true}) { eq(e.getLastBurstEnd(r).has_value(), m.dir[r].init, "a burst was transferred"); if (m.dir[r].init) eq(*e.getLastBurstEnd(r), m.dir[r].end, "end of the last burst"); }
    }
    s.interesting(ev);
}
template <typename T, std::size_t SUB, PinState IDLE> static void algos(Src& s) { constexpr std::size_t D = sizeof(T) * 8 * SUB; switch (s.below(4)) { case 0: case 1: return engine<T, SUB, IDLE, StaticDBI>(s, 0); case 2: return engine<T, SUB, IDLE, DynamicDBI<D / 2>>(s, D / 2 + 1); default: return engine<T, SUB, IDLE, DynamicDBI<1>>(s, 2); } }
static void dbi(Src& s) { switch (s.below(6)) { case 0: return algos<uint8_t, 1, PinState::L>(s); case 1: return algos<uint8_t, 1, PinState::H>(s); case 2: return algos<uint8_t, 2, PinState::L>(s); case 3: return algos<uint16_t, 1, PinState::H>(s); case 4: return algos<uint32_t, 2, PinState::L>(s); default: return algos<uint8_t, 3, PinState::H>(s); } }
// ---- pin: bursts of levels, idle level in between
template <std::size_t N> static void pin(Src& s) {
    PinState idle = s.pick({PinState::L, PinState::H, PinState::Z}), init = s.chance(1, 3) ? s.pick({PinState::L, PinState::H, PinState::Z}) : idle; Pin<N> p(init, idle); std::map<uint64_t, int> level; uint64_t start = 0, n = 0, now = 0, lo = 0; unsigned ev = 0, rounds = 1 + s.below(10); bool any = false; const std::size_t rate = s.chance(1, 2) ? 1 : 1 + s.below(8); s << "idle " << int(idle) << " initial " << int(init) << " slots per cycle " << rate << "\n";
    auto at = [&](uint64_t slot) { auto i = level.find(slot); return i == level.end() ? int(idle) : i->second; };
    auto ref = [&](uint64_t T) { bus_stats_t r; int prev = int(init); for (uint64_t t = 0; t < T; ++t) { int l = at(t); r.ones += l == 1; r.zeroes += l == 0; if (prev == 0 && l == 1) { r.zeroes_to_ones++; r.bit_changes++; } if (prev == 1 && l == 0) { r.ones_to_zeroes++; r.bit_changes++; } prev = l; } return r; };
    auto check = [&](uint64_t T) { bool cycles = T % rate == 0 && s.chance(1, 2); auto a = cycles ? p.get_stats_at(T / rate, rate) : p.get_stats_at(T), b = ref(T); std::string w = " at " + std::to_string(T); eq(a.ones, b.ones, "high slots" + w); eq(a.zeroes, b.zeroes, "low slots" + w); eq(a.zeroes_to_ones, b.zeroes_to_ones, "rises" + w); eq(a.ones_to_zeroes, b.ones_to_zeroes, "falls" + w); eq(a.bit_changes, b.bit_changes, "changes" + w); };
    for (unsigned i = 0; i < rounds; ++i) {
        if (s.chance(1, 6)) { std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); p.serialize(ss); Pin<N> o(s.pick({PinState::L, PinState::H, PinState::Z}), idle); o.deserialize(ss); eq(std::size_t(ss.tellg()), ss.str().size(), "bytes read back"); p = o; s << "  save and restore\n"; }
        now = any ? start + n : 0; now += s.chance(1, 2) ? 0 : s.below(6); now += (rate - now % rate) % rate; start = now; n = 1 + s.below(N); s << "  " << start << ":"; for (uint64_t k = 0; k < n; ++k) { bool h = s.chance(1, 2); rate == 1 ? p.set(start, h ? PinState::H : PinState::L) : p.set(start / rate, h ? PinState::H : PinState::L, rate); level[start + k] = h; s << " " << h; } s << "\n"; any = true; ++ev; lo = start;
        for (int k = 0; k < 3; ++k) check(lo + s.below(n + 5));
    }
    s.interesting(ev);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "U07"; p.quick_cases = 2250000; p.thorough_cases = 10000000;
    p.rule = "random inversion engines (8 to 64 bit chunks of 1 to 3 words, both idle levels, static and transition-counting rule, with a bus width or counting chunks absolutely) over sequences of reads and writes back to back and apart, resets, save/restore and switching off, compared callback by callback and word by word with a replay of the sent beats; pins over random bursts of levels; non-trivial when at least two bursts were transferred";
    p.assumptions = {"reads and writes share one bus and do not overlap", "the transition-counting rule compares with the levels sent before, the idle level after a gap"};
    p.scenarios = {{"inversion engine", dbi, 3, 2}, {"pin (16)", pin<16>, 1, 2}, {"pin (70)", pin<70>, 1, 2}};
    return pbt::pbt_main(c, v, p);
}
