// Reference model of the device state and generator of legal command histories.
// The model keeps explicit time intervals per bank and rank; every reported residency is a
// measure of a set built from them, so nothing is accumulated incrementally.
#pragma once
#include "spec.hpp"

namespace vf {
enum class C { NOP, RD, WR, RDA, WRA, ACT, PRE, REFB, REFP2B, REFDB, PRESB, REFSB, PREA, REFA, PDEA, PDEP, PDXA, PDXP, SREFEN, SREFEX, DSMEN, DSMEX, END, COUNT };
inline const char* cname(C c) { static const char* n[] = {"NOP", "RD", "WR", "RDA", "WRA", "ACT", "PRE", "REFB", "REFP2B", "REFDB", "PRESB", "REFSB", "PREA", "REFA", "PDEA", "PDEP", "PDXA", "PDXP", "SREFEN", "SREFEX", "DSMEN", "DSMEX", "END"}; return n[int(c)]; }

struct Cmd {
    uint64_t t = 0; C c = C::NOP; uint64_t rank = 0, bank = 0, bg = 0, row = 0, col = 0;
    std::vector<uint8_t> data; uint64_t bits = 0;
};
inline std::string hex(const std::vector<uint8_t>& d) { static const char* h = "0123456789abcdef"; std::string r; for (auto b : d) { r += h[b >> 4]; r += h[b & 15]; } return r; }
inline std::ostream& operator<<(std::ostream& o, const Cmd& c) {
    o << c.t << " " << cname(c.c) << " rank=" << c.rank << " bank=" << c.bank << " bg=" << c.bg << " row=" << c.row << " col=" << c.col;
    if (c.bits) { o << " bits=" << c.bits; if (!c.data.empty()) o << " data=" << (c.data.size() > 64 ? hex({c.data.begin(), c.data.begin() + 64}) + ".." : hex(c.data)); }
    return o;
}
using Trace = std::vector<Cmd>;

struct Iv { uint64_t s, e; };                 // [s, e)
constexpr uint64_t INF = UINT64_MAX;
using Set = std::vector<Iv>;
inline Set normalise(Set v) {
    std::sort(v.begin(), v.end(), [](const Iv& a, const Iv& b) { return a.s < b.s; });
    Set r; for (auto& i : v) { if (i.s >= i.e) continue; if (!r.empty() && i.s <= r.back().e) r.back().e = std::max(r.back().e, i.e); else r.push_back(i); }
    return r;
}
inline Set clip(const Set& v, uint64_t T) { Set r; for (auto i : v) { i.e = std::min(i.e, T); if (i.s < i.e) r.push_back(i); } return normalise(r); }
inline uint64_t measure(const Set& v) { uint64_t n = 0; for (auto& i : normalise(v)) n += i.e - i.s; return n; }
inline Set unite(Set a, const Set& b) { a.insert(a.end(), b.begin(), b.end()); return normalise(a); }
inline Set minus(const Set& a0, const Set& b0) {
    Set a = normalise(a0), b = normalise(b0), r;
    for (auto i : a) { for (auto& k : b) { if (k.e <= i.s || k.s >= i.e) continue; if (k.s > i.s) r.push_back({i.s, k.s}); i.s = k.e; if (i.s >= i.e) break; } if (i.s < i.e) r.push_back(i); }
    return r;
}

struct Counters {
    uint64_t act = 0, pre = 0, reads = 0, writes = 0, readAuto = 0, writeAuto = 0, refAllBank = 0, refPerBank = 0, refPerTwoBanks = 0, refDualBanks = 0, refSameBank = 0;
};
struct Cycles { uint64_t act = 0, pre = 0, powerDownAct = 0, powerDownPre = 0, selfRefresh = 0, deepSleepMode = 0; };

class CoreModel {
public:
    struct Bank {
        Set open;                       // ACT..PRE and refresh intervals; last may be open-ended
        bool active = false;            // an ACT interval is open
        uint64_t busyUntil = 0;         // end of refresh or time of a scheduled auto-precharge
        bool hasAuto = false; uint64_t autoAt = 0;
        uint64_t lastOpen = 0, lastPre = 0, refEnd = 0;
        std::vector<uint64_t> preTimes; Counters n;   // n.pre unused; preTimes carries it
        uint64_t actSeen = 0;
    };
    struct Rank {
        std::vector<Bank> b;
        Set pda, pdp, sref, dsm;
        int pd = 0;                     // 0 none, 1 active power-down, 2 precharge power-down
        uint64_t pdCmd = 0, pdEntry = 0, readyAt = 0;   // readyAt: effective end of the last power-down exit
        bool inSref = false, inDsm = false; uint64_t srefStart = 0;
    };
    Spec spec; Par p; std::vector<Rank> r;
    explicit CoreModel(const Spec& s) : spec(s), p(params(s)) { r.resize(p.ranks); for (auto& k : r) k.b.resize(p.banks); }

    static void settle(Bank& b, uint64_t t) { if (b.hasAuto && b.autoAt <= t) { b.hasAuto = false; b.active = false; } }
    void settle(uint64_t t) { for (auto& k : r) for (auto& b : k.b) settle(b, t); }

    void openBank(Bank& b, uint64_t t) { b.open.push_back({t, INF}); b.active = true; b.lastOpen = t; }
    void closeBank(Bank& b, uint64_t t) { if (!b.active) return; b.open.back().e = t; b.active = false; b.lastPre = t; b.preTimes.push_back(t); }
    void refresh(Bank& b, uint64_t t, uint64_t len) { b.open.push_back({t, t + len}); b.lastOpen = t; b.refEnd = t + len; b.busyUntil = t + len; }
    void autoPre(Bank& b, uint64_t t, uint64_t off) { uint64_t at = std::max(b.lastOpen + p.tRAS, t + off); b.hasAuto = true; b.autoAt = at; b.open.back().e = at; b.lastPre = at; b.preTimes.push_back(at); b.busyUntil = at; }
    // earliest time at which a power-down change takes effect
    uint64_t earliest(const Rank& k, uint64_t t) const {
        uint64_t e = t;
        for (auto& b : k.b) { if (b.n.act) e = std::max(e, b.lastOpen + p.tRCD); if (!b.preTimes.empty()) e = std::max(e, b.lastPre + p.tRP); e = std::max(e, b.refEnd); }
        return e;
    }
    std::vector<uint64_t> sameBanks(uint64_t bank) const { std::vector<uint64_t> v; for (uint64_t g = 0; g < p.groups; ++g) v.push_back(bank % p.perGroup + g * p.perGroup); return v; }

    void apply(const Cmd& c) {
        settle(c.t);
        if (c.c == C::END || c.c == C::NOP) return;
        Rank& k = r.at(c.rank); Bank& b = k.b.at(c.bank); uint64_t t = c.t;
        switch (c.c) {
        case C::ACT: openBank(b, t); ++b.n.act; break;
        case C::PRE: closeBank(b, t); break;
        case C::PREA: for (auto& x : k.b) closeBank(x, t); break;
        case C::PRESB: for (auto i : sameBanks(c.bank)) closeBank(k.b[i], t); break;
        case C::RD: ++b.n.reads; break;
        case C::WR: ++b.n.writes; break;
        case C::RDA: ++b.n.readAuto; autoPre(b, t, p.offRD); break;
        case C::WRA: ++b.n.writeAuto; autoPre(b, t, p.offWR); break;
        case C::REFA: for (auto& x : k.b) { refresh(x, t, p.tRFCab); ++x.n.refAllBank; } break;
        case C::REFB: refresh(b, t, p.tRFCone); ++b.n.refPerBank; break;
        case C::REFSB: for (auto i : sameBanks(c.bank)) { refresh(k.b[i], t, p.tRFCone); ++k.b[i].n.refSameBank; } break;
        case C::REFP2B: for (auto i : {c.bank, (c.bank + 8) % 16}) { refresh(k.b[i], t, p.tRFCone); ++k.b[i].n.refPerTwoBanks; } break;
        case C::REFDB: for (auto i : {c.bank, (c.bank + 8) % 16}) { refresh(k.b[i], t, p.tRFCone); ++k.b[i].n.refDualBanks; } break;
        case C::SREFEN: for (auto& x : k.b) { refresh(x, t, p.tRFCab); ++x.n.refAllBank; } k.inSref = true; k.srefStart = t + p.tRFCab; k.sref.push_back({k.srefStart, INF}); break;
        case C::SREFEX: k.sref.back().e = t; k.inSref = false; break;
        case C::DSMEN: k.inDsm = true; k.dsm.push_back({t, INF}); break;
        case C::DSMEX: k.inDsm = false; k.dsm.back().e = t; break;
        case C::PDEA: case C::PDEP: k.pd = c.c == C::PDEA ? 1 : 2; k.pdCmd = t; k.pdEntry = earliest(k, t); (k.pd == 1 ? k.pda : k.pdp).push_back({k.pdEntry, INF}); break;
        case C::PDXA: case C::PDXP: { uint64_t e = earliest(k, t); auto& v = c.c == C::PDXA ? k.pda : k.pdp; v.back().e = e; k.pd = 0; k.readyAt = e;
            if (c.c == C::PDXA) for (auto& x : k.b) if (x.active) x.lastOpen = e; break; }
        default: throw std::logic_error("model: unknown command");
        }
    }

    // --- legality, for the generator. t is at or after the last command.
    bool rankFree(const Rank& k, uint64_t t) const { return !k.pd && !k.inSref && t >= k.readyAt; }
    static bool refreshing(const Bank& b, uint64_t t) { return b.refEnd > t; }
    static bool pendingAuto(const Bank& b, uint64_t t) { return b.hasAuto && b.autoAt > t; }
    static bool idle(const Bank& b, uint64_t t) { return !b.active && !refreshing(b, t) && !pendingAuto(b, t); }
    static bool opened(const Bank& b, uint64_t t) { return b.active && !pendingAuto(b, t) && !refreshing(b, t); }
    static bool anyRefresh(const Rank& k, uint64_t t) { for (auto& b : k.b) if (refreshing(b, t)) return true; return false; }
    static bool anyAuto(const Rank& k, uint64_t t) { for (auto& b : k.b) if (pendingAuto(b, t)) return true; return false; }
    static bool anyActive(const Rank& k, uint64_t) { for (auto& b : k.b) if (b.active) return true; return false; }
    static bool allIdle(const Rank& k, uint64_t t) { for (auto& b : k.b) if (!idle(b, t)) return false; return true; }

    // --- evaluation at T (not before the last command)
    Cycles bankCycles(uint64_t rk, uint64_t bk, uint64_t T) const { return cycles(r[rk], r[rk].b[bk].open, T); }
    Cycles rankCycles(uint64_t rk, uint64_t T) const { Set u; for (auto& b : r[rk].b) u.insert(u.end(), b.open.begin(), b.open.end()); return cycles(r[rk], u, T); }
    Cycles cycles(const Rank& k, const Set& open, uint64_t T) const {
        Set A = clip(k.pda, T), P = clip(k.pdp, T), S = clip(k.sref, T), D = clip(k.dsm, T), O = minus(minus(clip(open, T), A), P);
        Cycles c; c.act = measure(O); c.powerDownAct = measure(A); c.powerDownPre = measure(P);
        bool split = spec.std == Std::LPDDR5 || spec.std == Std::LPDDR6;
        c.selfRefresh = measure(split ? minus(S, D) : S); c.deepSleepMode = split ? measure(D) : 0;
        c.pre = T - measure(unite(unite(unite(O, A), P), S));
        return c;
    }
    Counters bankCounters(uint64_t rk, uint64_t bk, uint64_t T) const {
        const Bank& b = r[rk].b[bk]; Counters c = b.n; c.pre = 0; for (auto t : b.preTimes) if (t <= T) ++c.pre; return c;
    }
    bool pendingImplicit(uint64_t T) const {   // something scheduled after T
        for (auto& k : r) { if (k.pd && k.pdEntry > T) return true; if (k.readyAt > T) return true; if (k.inSref && k.srefStart > T) return true;
            for (auto& b : k.b) if (b.refEnd > T || pendingAuto(b, T)) return true; }
        return false;
    }
};

struct GenOpt {
    unsigned minCmds = 1, maxCmds = 60;
    bool powerDown = true, refresh = true, selfRefresh = true, autoPre = true;
    bool data = false;              // attach data bursts and keep bus occupancy legal
    bool dataMaybeAbsent = false;   // data bursts may have no payload (only used in toggling-rate mode)
    std::function<uint64_t(const Cmd&)> caCycles;   // command-bus occupancy in clock cycles (null: no constraint)
    bool randomBg = false;          // bank-group coordinate independent of the bank
    bool strictRefP2B = false;
    bool end = true;
    bool hugeGaps = true;           // now and then a gap that exceeds 32 bits
    std::function<bool(C)> allow;
    std::function<uint64_t()> gap;   // time to the next command (null: drawn)
};

// Burst geometry for data commands: number of bus beats -> bits
inline uint64_t beatsPerCycle(const Spec& s) { auto p = params(s); return s.std == Std::LPDDR5 || s.std == Std::LPDDR6 ? uint64_t(p.DR * p.wck2ck) : p.DR; }

class Gen {
public:
    Src& s; const Spec& sp; GenOpt o; CoreModel m; Trace tr; uint64_t now = 0;
    uint64_t caFree = 0, rdFree = 0, wrFree = 0;
    Gen(Src& s, const Spec& sp, GenOpt o = {}) : s(s), sp(sp), o(std::move(o)), m(sp) {}

    uint64_t delta() {
        if (o.gap) return o.gap();
        switch (s.weighted({60, 160, 60, 20, 40, 2})) {
        case 0: return s.below(3);
        case 1: return s.below(16);
        case 2: return s.below(80);
        case 3: return s.below(400);
        case 5: return o.hugeGaps ? (s.chance(1, 3) ? (1ull << s.range(12, 40)) + s.below(1000) : s.below(1ull << 34)) : s.below(5000);
        default: {   // aim at a moment when something scheduled happens
            std::vector<uint64_t> v; for (auto& k : m.r) { if (k.readyAt > now) v.push_back(k.readyAt); if (k.pd && k.pdEntry > now) v.push_back(k.pdEntry); if (k.inSref && k.srefStart > now) v.push_back(k.srefStart);
                for (auto& b : k.b) { if (b.refEnd > now) v.push_back(b.refEnd); if (b.hasAuto && b.autoAt > now) v.push_back(b.autoAt); } }
            std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
            if (v.empty()) return s.below(16);
            return s.pick(v) - now; }
        }
    }
    bool allowed(C c) const { return !o.allow || o.allow(c); }

    struct Opt { C c; uint64_t rank, bank; unsigned w; };
    std::vector<Opt> options(uint64_t t) {
        std::vector<Opt> v; auto add = [&](C c, uint64_t r, uint64_t b, unsigned w) { if (allowed(c)) v.push_back({c, r, b, w}); };
        bool lp5 = sp.std == Std::LPDDR5, lp6 = sp.std == Std::LPDDR6, lp4 = sp.std == Std::LPDDR4, d5 = sp.std == Std::DDR5, d4 = sp.std == Std::DDR4;
        auto& P = m.p;
        for (uint64_t k = 0; k < P.ranks; ++k) {
            auto& R = m.r[k];
            if (R.pd) {
                if (t < R.pdCmd) continue;
                if (R.pd == 1) { if (!d4 || t >= R.pdEntry) add(C::PDXA, k, 0, 30); }
                else if (!d4 || t >= R.pdEntry) add(C::PDXP, k, 0, 30);
                continue;
            }
            if (R.inSref) {
                if (t < R.srefStart) continue;
                if (R.inDsm) { add(C::DSMEX, k, 0, 30); continue; }
                if (lp5) add(C::DSMEN, k, 0, 15);
                add(C::SREFEX, k, 0, 20); continue;
            }
            if (t < R.readyAt) continue;
            bool anyRef = m.anyRefresh(R, t), anyAuto = m.anyAuto(R, t), anyAct = m.anyActive(R, t), allIdle = m.allIdle(R, t);
            for (uint64_t b = 0; b < P.banks; ++b) {
                auto& B = R.b[b];
                if (m.idle(B, t)) { add(C::ACT, k, b, 6); add(C::PRE, k, b, 1); if (o.refresh) {
                    if (lp4 || lp5) add(C::REFB, k, b, 3);
                    if (lp5 && P.banks == 16 && m.idle(R.b[(b + 8) % 16], t)) add(C::REFP2B, k, b, 3);
                    if (lp6 && m.idle(R.b[(b + 8) % 16], t)) add(C::REFDB, k, b, 4); } }
                if (m.opened(B, t)) { add(C::RD, k, b, 8); add(C::WR, k, b, 8); if (o.autoPre) { add(C::RDA, k, b, 4); add(C::WRA, k, b, 4); } add(C::PRE, k, b, 8); }
            }
            if (d5) for (uint64_t b = 0; b < P.perGroup; ++b) {
                bool allI = true, okPre = true; for (auto i : m.sameBanks(b)) { allI &= m.idle(R.b[i], t); okPre &= !m.refreshing(R.b[i], t) && !m.pendingAuto(R.b[i], t); }
                if (allI && o.refresh) add(C::REFSB, k, b + P.perGroup * s.below(P.groups), 8);
                if (okPre) add(C::PRESB, k, b + P.perGroup * s.below(P.groups), 6);
            }
            if (!anyRef && !anyAuto) add(C::PREA, k, s.below(P.banks), 4);
            if (allIdle && o.refresh) add(C::REFA, k, s.below(P.banks), 14);
            if (allIdle && o.selfRefresh) add(C::SREFEN, k, s.below(P.banks), 10);
            if (o.powerDown && !anyAuto && anyAct) add(C::PDEA, k, s.below(P.banks), 10);
            if (o.powerDown && !anyAuto && !anyAct) add(C::PDEP, k, s.below(P.banks), 10);
            if (d5) add(C::NOP, k, s.below(P.banks), 2);
        }
        if (o.end && s.chance(1, 4)) add(C::END, s.below(P.ranks), s.below(P.banks), 2);
        return v;
    }
    static bool isRead(C c) { return c == C::RD || c == C::RDA; }
    static bool isWrite(C c) { return c == C::WR || c == C::WRA; }
    // hook for interface properties: fill burst data; returns burst length in clock cycles (rounded up)
    std::function<uint64_t(Gen&, Cmd&)> fillData;

    bool step() {
        uint64_t t = now + delta();
        if (o.caCycles && t < caFree) t = caFree;
        for (int tries = 0; tries < 4; ++tries) {
            m.settle(t);
            auto v = options(t);
            if (o.data) { std::vector<Opt> w; for (auto& x : v) if (!(isRead(x.c) && t < rdFree) && !(isWrite(x.c) && t < wrFree)) w.push_back(x); v = w; }
            if (!v.empty()) {
                // group by command first so that rare commands are not drowned by the number of banks
                std::vector<unsigned> w; std::vector<C> kinds; for (auto& x : v) { std::size_t i = 0; for (; i < kinds.size(); ++i) if (kinds[i] == x.c) break; if (i == kinds.size()) { kinds.push_back(x.c); w.push_back(x.w); } }
                C c = kinds[s.weighted(w)]; std::vector<Opt> w2; for (auto& x : v) if (x.c == c) w2.push_back(x);
                auto x = w2[s.below(w2.size())];
                Cmd k; k.t = t; k.c = c; k.rank = x.rank; k.bank = x.bank; k.bg = o.randomBg ? s.below(16) : x.bank / m.p.perGroup;
                if (c == C::ACT) k.row = s.chance(1, 3) ? s.below(1 << 19) : s.below(64);
                if (isRead(c) || isWrite(c)) { k.col = s.chance(1, 3) ? s.below(1 << 12) : s.below(64); if (s.chance(1, 4)) k.row = s.below(1 << 19); }
                if (fillData && (isRead(c) || isWrite(c))) { uint64_t len = fillData(*this, k); if (isRead(c)) rdFree = t + len; else wrFree = t + len; }
                push(k); return true;
            }
            t += 1 + s.below(60);
        }
        now = t; return false;
    }
    void push(const Cmd& k) {
        if (o.caCycles) caFree = k.t + o.caCycles(k);
        now = k.t; m.apply(k); tr.push_back(k); s.label(cname(k.c)); s << k << "\n";
    }
    // close whatever is open so that the trace may go on forever is not needed; the trace may end in any state
    void run() { unsigned n = o.minCmds + s.below(o.maxCmds - o.minCmds + 1); for (unsigned i = 0; i < n; ++i) step(); }
};
} // namespace vf
