// Bit containers against a vector of bits.
#include "pbt.hpp"
#include <DRAMPower/util/dynamic_bitset.h>
#include <DRAMPower/util/sub_bitset.h>
#include <DRAMPower/util/binary_ops.h>
#include <DRAMPower/util/burst_storage.h>
using namespace DRAMPower::util; using pbt::Src; using pbt::eq;
using Bits = std::vector<bool>;
static Bits fromValue(std::size_t n, uint64_t v) { Bits b(n); for (std::size_t i = 0; i < n && i < 64; ++i) b[i] = v >> i & 1; return b; }
static uint64_t value(Src& s) { switch (s.below(4)) { case 0: return s.below(16); case 1: return ~0ull >> s.below(64); case 2: return 1ull << s.below(64); default: return s.raw64(); } }
template <typename B> void same(const B& b, const Bits& m, const char* at) {
    eq(b.size(), m.size(), std::string(at) + ": size"); eq(b.count(), std::size_t(std::count(m.begin(), m.end(), true)), std::string(at) + ": ones");
    for (std::size_t i = 0; i < m.size(); ++i) if (bool(b[i]) != bool(m[i])) throw pbt::Fail(std::string(at) + ": bit " + std::to_string(i) + " differs");
}
template <typename A, typename B> void relation(const A& a, const B& b, const Bits& ma, const Bits& mb) { eq(a == b, ma == mb, "equality"); eq(a != b, ma != mb, "inequality"); }
template <std::size_t BS> dynamic_bitset<BS> build(const Bits& m, Src& s) {
    if (s.chance(1, 2)) { dynamic_bitset<BS> d; for (bool b : m) d.push_back(b); return d; }
    dynamic_bitset<BS> d(m.size()); if (s.chance(1, 3)) { d.set(); } for (std::size_t i = 0; i < m.size(); ++i) d.set(i, m[i]); return d;
}
static Bits random(Src& s, std::size_t n) { Bits b(n); unsigned d = s.below(3); for (std::size_t i = 0; i < n; ++i) b[i] = d == 0 ? s.chance(1, 2) : d == 1 ? s.chance(1, 8) : s.chance(7, 8); return b; }
template <std::size_t BS> void dyn(Src& s) {
    std::size_t n = s.below(3) ? s.below(2 * BS + 3) : s.below(140); dynamic_bitset<BS> b; Bits m;
    switch (s.below(3)) { case 0: b = dynamic_bitset<BS>(n); m = Bits(n); break; case 1: { uint64_t v = value(s); b = dynamic_bitset<BS>(n, v); m = fromValue(n, v); break; } default: break; }
    s << "block size " << BS << ", " << m.size() << " bits\n"; same(b, m, "constructed");
    unsigned ops = 1 + s.below(25); unsigned done = 0;
    for (unsigned i = 0; i < ops; ++i) {
        const char* w = "";
        switch (s.below(14)) {
        case 0: { bool v = s.chance(1, 2); unsigned k = 1 + s.below(s.chance(1, 4) ? BS + 2 : 3); w = "push_back"; while (k--) { b.push_back(v); m.push_back(v); v = s.chance(1, 2); } break; }
        case 1: if (!m.empty()) { std::size_t k = s.below(m.size()); bool v = s.chance(1, 2); w = "set bit"; b.set(k, v); m[k] = v; } break;
        case 2: w = "set"; b.set(); m.assign(m.size(), true); break;
        case 3: w = "reset"; b.reset(); m.assign(m.size(), false); break;
        case 4: w = "flip"; b.flip(); m.flip(); break;
        case 5: if (!m.empty()) { std::size_t k = s.below(m.size()); w = "flip bit"; b.flip(k); m[k] = !m[k]; } break;
        case 6: if (s.chance(1, 3)) { w = "clear"; b.clear(); m.clear(); } break;
        case 7: w = "complement"; b = ~b; m.flip(); break;
        case 8: case 9: case 10: { Bits o = random(s, m.size()); auto x = build<BS>(o, s); bool inplace = s.chance(1, 2); unsigned op = s.below(3); w = op == 0 ? "xor" : op == 1 ? "and" : "or";
            if (op == 0) { inplace ? void(b ^= x) : void(b = b ^ x); } else if (op == 1) { inplace ? void(b &= x) : void(b = b & x); } else { inplace ? void(b |= x) : void(b = b | x); }
            for (std::size_t k = 0; k < m.size(); ++k) m[k] = op == 0 ? m[k] != o[k] : op == 1 ? m[k] && o[k] : m[k] || o[k]; same(x, o, "right-hand side"); break; }
        case 11: { w = "compare"; Bits o = m; if (s.chance(1, 2) && !o.empty()) { std::size_t k = s.below(o.size()); o[k] = !o[k]; } if (s.chance(1, 4)) { if (s.chance(1, 2)) o.push_back(s.chance(1, 2)); else if (!o.empty()) o.pop_back(); }
            relation(b, build<BS>(o, s), m, o); relation(b, build<BS + 1>(o, s), m, o); relation(build<BS + 5>(m, s), build<BS>(o, s), m, o); break; }
        case 12: { w = "compare with a number"; uint64_t v = value(s); if (s.chance(1, 2)) { v = 0; for (std::size_t k = 0; k < m.size() && k < 64; ++k) v |= uint64_t(m[k]) << k; } bool want = fromValue(m.size(), v) == m; eq(b == v, want, "equality with a number"); eq(b != v, !want, "inequality with a number"); break; }
        default: { w = "copy"; dynamic_bitset<BS> c(b), e; e = c; dynamic_bitset<BS> f(std::move(c)); same(f, m, "moved"); b = std::move(e); break; }
        }
        s << "  " << w << "\n"; same(b, m, w); ++done;
    }
    s.interesting(m.size() % BS && m.size() > BS ? done : done / 2);
}
template <std::size_t MW> void sub(Src& s) {
    std::size_t n = s.below(MW + 1); Bits m(n); uint64_t v = value(s); bool val = s.chance(1, 2); sub_bitset<MW> b = val ? sub_bitset<MW>(n, v) : sub_bitset<MW>(n); if (val) m = fromValue(n, v); s << "capacity " << MW << ", " << n << " bits\n"; same(b, m, "constructed");
    unsigned ops = 1 + s.below(25);
    for (unsigned i = 0; i < ops; ++i) {
        const char* w = "";
        switch (s.below(9)) {
        case 0: if (n) { std::size_t k = s.below(n); bool x = s.chance(1, 2); w = "set bit"; b.set(k, x); m[k] = x; } break;
        case 1: w = "set"; b.set(); m.assign(n, true); break;
        case 2: w = "reset"; b.reset(); m.assign(n, false); break;
        case 3: w = "flip"; b.flip(); m.flip(); break;
        case 4: if (n) { std::size_t k = s.below(n); w = "flip bit"; b.flip(k); m[k] = !m[k]; } break;
        case 5: w = "complement"; b = ~b; m.flip(); break;
        case 6: { Bits o = random(s, n); sub_bitset<MW> x(n); for (std::size_t k = 0; k < n; ++k) x.set(k, o[k]); unsigned op = s.below(3); bool inplace = s.chance(1, 2); w = op == 0 ? "xor" : op == 1 ? "and" : "or";
            if (op == 0) { inplace ? void(b ^= x) : void(b = b ^ x); } else if (op == 1) { inplace ? void(b &= x) : void(b = b & x); } else { inplace ? void(b |= x) : void(b = b | x); }
            for (std::size_t k = 0; k < n; ++k) m[k] = op == 0 ? m[k] != o[k] : op == 1 ? m[k] && o[k] : m[k] || o[k]; break; }
        case 7: { w = "compare"; Bits o = m; if (n && s.chance(1, 2)) { std::size_t k = s.below(n); o[k] = !o[k]; } if (s.chance(1, 4) && n < MW) o.push_back(false); sub_bitset<MW> x(o.size()); for (std::size_t k = 0; k < o.size(); ++k) x.set(k, o[k]); relation(b, x, m, o); uint64_t q = value(s); bool want = fromValue(n, q) == m; eq(b == q, want, "equality with a number"); eq(b != q, !want, "inequality with a number"); break; }
        default: if (n < MW) { w = "index beyond the width"; break; } break;
        }
        s << "  " << w << "\n"; same(b, m, w);
    }
    s.interesting(ops);
}
// Bit-counting helpers.
template <std::size_t W> void ops(Src& s) {
    std::bitset<W> a, b; Bits x = random(s, W), y = s.chance(1, 4) ? x : random(s, W); for (std::size_t i = 0; i < W; ++i) { a[i] = x[i]; b[i] = y[i]; }
    uint64_t ones = 0, ch = 0, o2z = 0, z2o = 0; for (std::size_t i = 0; i < W; ++i) { ones += x[i]; ch += x[i] != y[i]; o2z += x[i] && !y[i]; z2o += !x[i] && y[i]; }
    eq(uint64_t(BinaryOps::popcount(a)), ones, "ones"); eq(uint64_t(BinaryOps::bit_changes(a, b)), ch, "changes"); eq(uint64_t(BinaryOps::one_to_zeroes(a, b)), o2z, "falls"); eq(uint64_t(BinaryOps::zero_to_ones(a, b)), z2o, "rises");
    uint64_t u = value(s), v = s.chance(1, 4) ? u : value(s); uint64_t p = 0; for (int i = 0; i < 64; ++i) p += u >> i & 1; eq(uint64_t(BinaryOps::popcount(u)), p, "ones of an integer");
    s.interesting(ch);
}
// Bursts keep the order and value of every bit of the payload.
template <std::size_t W> void storage(Src& s) {
    std::size_t width = 1 + s.below(W); burst_storage<BusContainer<W>> st(width); unsigned rounds = 1 + s.below(5);
    for (unsigned r = 0; r < rounds; ++r) {
        std::size_t n = 1 + s.below(20); std::vector<uint8_t> d((n * width + 7) / 8); for (auto& b : d) b = s.below(256); uint64_t t = s.below(1000); bool inv = s.chance(1, 3);
        BurstStorageInsertHelper::insert_data(st, t, width, d.data(), n * width, inv); s << "  " << n << " beats of " << width << " bits at " << t << (inv ? " inverted" : "") << "\n"; eq(st.size(), n, "beats"); eq(st.endTime(), t + n, "end of the burst"); eq(st.empty(), false, "empty");
        auto look = [&](const burst_storage<BusContainer<W>>& q, const char* w) { for (std::size_t i = 0; i < n; ++i) { auto x = q.get_burst(n - 1 - i); for (std::size_t k = 0; k < W; ++k) { std::size_t p = i * width + k; bool want = k < width && (((d[p / 8] >> (p % 8)) & 1) != inv); if (x[k] != want) throw pbt::Fail(std::string(w) + ": beat " + std::to_string(i) + " line " + std::to_string(k) + " wrong"); } } };
        look(st, "stored"); std::stringstream ss; st.serialize(ss); burst_storage<BusContainer<W>> o(width); if (s.chance(1, 2)) { uint8_t z[64] = {}; BurstStorageInsertHelper::insert_data(o, 5, 1, z, 30); } o.deserialize(ss); eq(o.size(), n, "restored beats"); eq(o.endTime(), t + n, "restored end"); look(o, "restored");
        if (s.chance(1, 4)) { st.clear(); eq(st.empty(), true, "empty after clear"); }
    }
    s.interesting(rounds);
}
// A burst built beat by beat; a beat with another load time starts a new burst. Windows of single lines are counted bit by bit.
template <typename Store, typename V, bool Line, std::size_t W> void beats(Src& s) {
    Store st = [&] { if constexpr (Line) return Store(); else return Store(1 + s.below(W)); }(); std::vector<V> m; uint64_t load = 0; unsigned ops = 1 + s.below(40), done = 0;
    for (unsigned i = 0; i < ops; ++i) {
        if (m.size() + 1 > W || s.chance(1, 6)) { uint64_t nl = s.chance(1, 3) ? load + m.size() : s.below(2000); if (nl == load) { st.clear(); m.clear(); load = 0; nl = 1 + s.below(2000); } if (s.chance(1, 3)) { st.clear(); load = 0; m.clear(); if (s.chance(1, 2)) nl = 0; } if (nl != load) m.clear(); load = nl; if (m.size() + 1 > W) continue; }
        V v; if constexpr (Line) v = s.chance(1, 2); else for (std::size_t k = 0; k < W; ++k) v[k] = s.chance(1, 2);
        st.push_back(load, v); m.push_back(v); ++done; s << "  beat " << m.size() - 1 << " of the burst at " << load << "\n";
        auto look = [&](const Store& q, const char* w) { eq(q.size(), m.size(), std::string(w) + " beats"); eq(q.endTime(), load + m.size(), std::string(w) + " end"); eq(q.empty(), false, std::string(w) + " empty"); for (std::size_t k = 0; k < m.size(); ++k) if (q.get_burst(m.size() - 1 - k) != m[k]) throw pbt::Fail(std::string(w) + ": beat " + std::to_string(k) + " wrong"); };
        look(st, "stored");
        if (s.chance(1, 6)) { std::stringstream ss; st.serialize(ss); Store o = [&] { if constexpr (Line) return Store(); else return Store(W); }(); if (s.chance(1, 2)) { o.push_back(7, v); o.push_back(7, v); } o.deserialize(ss); look(o, "restored"); if (s.chance(1, 2)) st = o; }
        if constexpr (Line) { std::size_t a = s.below(m.size() + 1), b = a + s.below(m.size() - a + 1); auto c = st.count(load + a, load + b); uint64_t one = 0, up = 0, dn = 0; for (std::size_t k = a; k < b; ++k) { one += m[k]; if (k > a) { up += m[k] && !m[k - 1]; dn += !m[k] && m[k - 1]; } }
            std::string w = "beats " + std::to_string(a) + " to " + std::to_string(b) + ": "; eq(c.ones, one, w + "ones"); eq(c.zeroes, b - a - one, w + "zeroes"); eq(c.zeroes_to_ones, up, w + "rises"); eq(c.ones_to_zeroes, dn, w + "falls"); eq(c.bit_changes, up + dn, w + "changes"); }
    }
    s.interesting(done);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "U01"; p.quick_cases = 3600000; p.thorough_cases = 8000000;
    p.rule = "random operation sequences on growing and fixed-width bit containers of many block sizes and widths (multiples of the block size and not), on burst storage and on the counting helpers, compared bit by bit with a vector of bits after every operation; non-trivial when at least three operations were made on a container that does not end at a block boundary (or three changed bits, or two bursts)";
    p.assumptions = {"indices are inside the container", "binary operators take containers of equal size"};
    auto d = [](Src& s) { switch (s.below(8)) { case 0: return dyn<1>(s); case 1: return dyn<3>(s); case 2: return dyn<8>(s); case 3: return dyn<13>(s); case 4: return dyn<32>(s); case 5: return dyn<64>(s); case 6: return dyn<7>(s); default: return dyn<100>(s); } };
    auto f = [](Src& s) { switch (s.below(4)) { case 0: return sub<8>(s); case 1: return sub<33>(s); case 2: return sub<64>(s); default: return sub<100>(s); } };
    auto o = [](Src& s) { switch (s.below(4)) { case 0: return ops<8>(s); case 1: return ops<64>(s); case 2: return ops<65>(s); default: return ops<300>(s); } };
    auto b = [](Src& s) { switch (s.below(3)) { case 0: return storage<8>(s); case 1: return storage<64>(s); default: return storage<130>(s); } };
    auto l = [](Src& s) { switch (s.below(6)) { case 0: return beats<burst_storage<BitsetContainer<16>>, bool, true, 16>(s); case 1: return beats<burst_storage<BitsetContainer<64>>, bool, true, 64>(s); case 2: return beats<burst_storage<BitsetContainer<7>>, bool, true, 7>(s); case 3: return beats<burst_storage<BitsetContainer<100>>, bool, true, 100>(s); case 4: return beats<burst_storage<BusContainer<12>>, std::bitset<12>, false, 12>(s); default: return beats<burst_storage<BusContainer<65>>, std::bitset<65>, false, 65>(s); } };
    p.scenarios = {{"growing bit container", d, 5, 3}, {"fixed-width bit container", f, 3, 3}, {"counting helpers", o, 1, 3}, {"burst storage", b, 2, 2}, {"burst built beat by beat", l, 2, 2}};
    return pbt::pbt_main(c, v, p);
}
