// Reference model of the interface: every line is simulated bit by bit on its own time grid.
// Written from the command truth tables and the bus conventions; includes no code under test.
#pragma once
#include "core.hpp"
#include <cmath>
#include <map>
#include <sstream>

namespace vf {
struct BS { uint64_t ones = 0, zeroes = 0, bc = 0, o2z = 0, z2o = 0;
    BS& operator+=(const BS& o) { ones += o.ones; zeroes += o.zeroes; bc += o.bc; o2z += o.o2z; z2o += o.z2o; return *this; }
    BS operator*(uint64_t k) const { return {ones * k, zeroes * k, bc * k, o2z * k, z2o * k}; } };

using Word = std::vector<uint64_t>;            // one bus word
// A parallel bus: bursts of words on a slot grid, idle level elsewhere.
class BitBus {
public:
    uint64_t width = 0, dr = 1; bool idle = false;
    struct Burst { uint64_t start; std::vector<Word> w; };
    std::vector<Burst> b;
    BitBus() = default; BitBus(uint64_t w, uint64_t d, bool i) : width(w), dr(d), idle(i) {}
    std::size_t nw() const { return (width + 63) / 64; }
    Word idleWord() const { Word w(nw(), 0); if (idle) for (uint64_t i = 0; i < width; ++i) w[i / 64] |= 1ull << (i % 64); return w; }
    static uint64_t pc(const Word& w) { uint64_t n = 0; for (auto x : w) n += __builtin_popcountll(x); return n; }
    void slot(BS& s, const Word& a, const Word& c) const {      // slot showing c after a slot showing a
        uint64_t o = pc(c); s.ones += o; s.zeroes += width - o;
        for (std::size_t i = 0; i < c.size(); ++i) { s.bc += __builtin_popcountll(a[i] ^ c[i]); s.o2z += __builtin_popcountll(a[i] & ~c[i]); s.z2o += __builtin_popcountll(~a[i] & c[i]); }
    }
    // payload bit i is bit (i mod width) of word i/width; the words appear on the bus last word first
    void loadPayload(uint64_t t, const std::vector<uint8_t>& d, uint64_t bits) {
        uint64_t n = bits / width; Burst u{t * dr, std::vector<Word>(n, Word(nw(), 0))};
        for (uint64_t k = 0; k < n; ++k) for (uint64_t i = 0; i < width; ++i) { uint64_t p = (n - 1 - k) * width + i; if (d[p / 8] >> (p % 8) & 1) u.w[k][i / 64] |= 1ull << (i % 64); }
        b.push_back(std::move(u));
    }
    void loadWords(uint64_t startSlot, std::vector<Word> w) { b.push_back({startSlot, std::move(w)}); }
    BS at(uint64_t T) const {
        uint64_t E = T * dr, pos = 0; BS s; Word I = idleWord(), prev = I; uint64_t io = pc(I);
        auto idleTo = [&](uint64_t e) { if (e <= pos) return; slot(s, prev, I); uint64_t n = e - pos - 1; s.ones += n * io; s.zeroes += n * (width - io); prev = I; pos = e; };
        for (auto& u : b) { if (u.start >= E) break; idleTo(u.start); for (auto& w : u.w) { if (pos >= E) return s; slot(s, prev, w); prev = w; ++pos; } }
        idleTo(E); return s;
    }
};

// A strobe that toggles rate times per cycle while it runs.
struct Strobe { uint64_t rate = 2; std::vector<Iv> on;
    BS at(uint64_t T) const { BS s; for (auto& i : on) { uint64_t e = i.e == INF ? T : i.e; if (e <= i.s) continue; uint64_t n = (e - i.s) * rate / 2; s += BS{n, n, 2 * n, n, n}; } return s; } };

struct TogLine { uint64_t width = 0, dr = 2; double tr = 0, dc = 0; int idle = 0; bool on = false; std::vector<Iv> bursts;  // in slots
    BS at(uint64_t T) const { BS s; if (!on) return s; uint64_t E = T * dr, n = 0; for (auto& i : bursts) if (i.s < E) n += std::min(i.e, E) - i.s;
        uint64_t ch = uint64_t(std::floor(double(n) * tr / 2)); s.ones = uint64_t(std::floor(double(n) * dc)); s.zeroes = uint64_t(std::floor(double(n) * (1 - dc))); s.o2z = s.z2o = ch; s.bc = 2 * ch;
        (idle ? s.ones : s.zeroes) += E - n; return s * width; } };

// ---- command truth tables (first bit is the most significant)
using Pat = std::vector<std::string>;
inline Pat pat(const std::string& t) { Pat p; std::istringstream i(t); std::string w; while (i >> w) { auto x = w.find('*'); if (x != std::string::npos) for (int n = std::stoi(w.substr(x + 1)); n > 0; --n) p.push_back(w.substr(0, x)); else p.push_back(w); } return p; }
inline std::map<C, Pat> tables(const Spec& sp) {
    std::map<C, Pat> m; auto set = [&](std::initializer_list<C> cs, const std::string& t) { for (auto c : cs) m[c] = pat(t); };
    switch (sp.std) {
    case Std::DDR4: {
        set({C::ACT}, "L L R16 R15 R14 BG0 BG1 BA0 BA1 V V V R12 R17 R13 R11 R10 R0 R1 R2 R3 R4 R5 R6 R7 R8 R9");
        set({C::PRE}, "L H L H L BG0 BG1 BA0 BA1 V*7 L V*10"); set({C::PREA}, "L H L H L V*11 H V*10");
        set({C::REFA, C::SREFEN}, "L H L L H V*22"); set({C::SREFEX}, "H X*26 L H H H H V*22"); set({C::PDEA, C::PDEP, C::PDXA, C::PDXP}, "H X*26");
        std::string col = " C0 C1 C2 C3 C4 C5 C6 C7 C8 C9";
        set({C::RD}, "L H H L H BG0 BG1 BA0 BA1 V*7 L" + col); set({C::RDA}, "L H H L H BG0 BG1 BA0 BA1 V*7 H" + col);
        set({C::WR}, "L H H L L BG0 BG1 BA0 BA1 V*7 L" + col); set({C::WRA}, "L H H L L BG0 BG1 BA0 BA1 V*7 H" + col); break; }
    case Std::DDR5: {
        set({C::ACT}, "L L R0 R1 R2 R3 BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2 R4 R5 R6 R7 R8 R9 R10 R11 R12 R13 R14 R15 R16 CID3");
        set({C::PRE}, "H H L H H CID3 BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2");
        for (bool a : {false, true}) { std::string ap = a ? "L" : "H";   // AP# is active low
            set({a ? C::RDA : C::RD}, "H L H H H H BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2 C2 C3 C4 C5 C6 C7 C8 C9 C10 V " + ap + " V V CID3");
            set({a ? C::WRA : C::WR}, "H L H H L H BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2 V C3 C4 C5 C6 C7 C8 C9 C10 V " + ap + " H V CID3"); }
        set({C::PRESB}, "H H L H L CID3 BA0 BA1 V V H CID0 CID1 CID2"); set({C::REFSB}, "H H L L H CID3 BA0 BA1 V V H CID0 CID1 CID2");
        set({C::REFA}, "H H L L H CID3 V*4 L CID0 CID1 CID2"); set({C::PREA}, "H H L H L CID3 V*4 L CID0 CID1 CID2");
        set({C::SREFEN}, "H H H L H V*4 H L V*3"); set({C::PDEA, C::PDEP}, "H H H L H V*5 H L V V"); set({C::PDXA, C::PDXP, C::SREFEX, C::NOP}, "H*5 V*9"); break; }
    case Std::LPDDR4: {
        set({C::ACT}, "H L R12 R13 R14 R15 BA0 BA1 BA2 R16 R10 R11 R17 R18 R6 R7 R8 R9 R0 R1 R2 R3 R4 R5");
        set({C::PRE}, "L L L L H L BA0 BA1 BA2 V*3"); set({C::PREA}, "L L L L H H V*6"); set({C::REFB}, "L L L H L L BA0 BA1 BA2 V*3"); set({C::REFA}, "L L L H L H V*6");
        set({C::SREFEN}, "L L L H H V*7"); set({C::SREFEX}, "L L H L H V*7");
        for (bool a : {false, true}) { std::string ap = a ? "H" : "L", tail = " L H L L H C8 C2 C3 C4 C5 C6 C7";
            set({a ? C::RDA : C::RD}, "L H L L L BL BA0 BA1 BA2 V C9 " + ap + tail); set({a ? C::WRA : C::WR}, "L L H L L BL BA0 BA1 BA2 V C9 " + ap + tail); } break; }
    case Std::LPDDR5: {
        set({C::ACT}, "H H H R14 R15 R16 R17 BA0 BA1 BA2 BA3 R11 R12 R13 H H L R7 R8 R9 R10 R0 R1 R2 R3 R4 R5 R6");
        set({C::PRE}, "L L L H H H H BA0 BA1 BA2 BA3 V V L"); set({C::PREA}, "L L L H H H H V*6 H"); set({C::REFB, C::REFP2B}, "L L L H H H L BA0 BA1 BA2 V V V L"); set({C::REFA}, "L L L H H H L V*6 H");
        for (bool a : {false, true}) { std::string ap = a ? "H" : "L", mid = " C0 C3 C4 C5 BA0 BA1 BA2 BA3 C1 C2 "; set({a ? C::RDA : C::RD}, "H L L" + mid + ap); set({a ? C::WRA : C::WR}, "L H H" + mid + ap); }
        set({C::SREFEN}, "L L L H L H H V*5 L L"); set({C::PDEA, C::PDEP}, "L L L H L H H V*5 L H"); set({C::DSMEN}, "L L L H L H H V*5 H L"); set({C::SREFEX, C::PDXA, C::PDXP, C::DSMEX}, "L L L H L H L V*7");
        auto P = params(sp);
        if (P.groups == 4) { for (C c : {C::ACT, C::PRE, C::PREA, C::RD, C::RDA, C::WR, C::WRA}) { m[c][9] = "BG0"; m[c][10] = "BG1"; } for (C c : {C::REFB, C::REFP2B, C::REFA}) m[c][9] = "BG0"; }
        else if (P.banks == 8) { for (C c : {C::ACT, C::PRE, C::PREA, C::WR, C::WRA}) m[c][10] = "V"; m[C::RD][10] = m[C::RDA][10] = "L"; }
        break; }
    case Std::LPDDR6: {
        set({C::NOP}, "L L L PAR L L L V X*8"); set({C::PDEA, C::PDEP}, "L L L PAR L H L V X*8"); set({C::PDXA, C::PDXP}, "V X X X V X X X V X X X V X X X");
        set({C::SREFEN}, "L L L PAR L L H H X*8"); set({C::SREFEX}, "L L L PAR L H H V X*8"); set({C::PRE}, "L L L PAR H H V SC V V V L BA0 BA1 BG0 BG1"); set({C::PREA}, "L L L PAR H H V SC V V V H X*4");
        set({C::REFDB}, "L L L PAR H L L SC DBG0 DBG1 V L BA0 BA1 BG0 BG1"); set({C::REFA}, "L L L PAR H L L SC X X V H X*4");
        set({C::ACT}, "H H H PAR H R15 R16 SC R11 R12 R13 R14 BA0 BA1 BG0 BG1 H H H PAR L R8 R9 R10 R4 R5 R6 R7 R0 R1 R2 R3");
        for (bool a : {false, true}) { std::string ap = a ? "H" : "L"; set({a ? C::WRA : C::WR}, "BL L H PAR C0 C1 " + ap + " SC C2 C3 C4 C5 BA0 BA1 BG0 BG1"); set({a ? C::RDA : C::RD}, "BL H L PAR C0 C1 " + ap + " SC C2 C3 C4 C5 BA0 BA1 BG0 BG1"); } break; }
    }
    return m;
}
inline uint64_t caWidth(Std s) { static const uint64_t w[] = {27, 14, 6, 7, 4}; return w[int(s)]; }
inline uint64_t caRate(Std s) { return s == Std::LPDDR5 || s == Std::LPDDR6 ? 2 : 1; }

struct IfExpect { BS ca, rd, wr, togR, togW, clk, wck, rdqs, wdqs, rdbi, wdbi; std::vector<std::pair<uint64_t, uint64_t>> seamless; };

class IfModel {
public:
    Spec sp; Par p; std::map<C, Pat> tab; bool toggling = false, dbi = false, parity = false; uint16_t meta[2] = {0, 0};
    BitBus ca, rd, wr; TogLine tR, tW; Strobe clk, wck, rdqs, wdqs; std::vector<BitBus> rdbi, wdbi; uint64_t width, strobes = 1; bool idleH, wckAlways = false;
    uint64_t lastRead = 0, lastWrite = 0;              // length in beats of the most recent transfer
    struct RK { uint64_t rEnd = 0, wEnd = 0, rs = 0, ws = 0; }; std::vector<RK> rk;
    uint64_t caLoads = 0, dataLoads = 0, inverted = 0;
    IfModel(const Spec& s, const std::optional<Toggle>& t) : sp(s), p(params(s)), tab(tables(s)), toggling(t.has_value()) {
        width = p.width * p.devices; idleH = s.std == Std::DDR4 || s.std == Std::DDR5;
        ca = BitBus(caWidth(s.std), caRate(s.std), idleH); rd = wr = BitBus(width, p.DR, idleH);
        tR.width = tW.width = width; tR.dr = tW.dr = p.DR; tR.on = tW.on = toggling;
        if (t) { tR.tr = t->trR; tR.dc = t->dcR; tR.idle = t->idleR; tW.tr = t->trW; tW.dc = t->dcW; tW.idle = t->idleW; }
        clk.rate = 2; clk.on = {{0, INF}}; rdqs.rate = wdqs.rate = p.DR;
        if (s.std == Std::DDR5) rdqs.rate = wdqs.rate = s.j.contains("dataratespec") ? s.j["dataratespec"]["dqs_bus_rate"].get<uint64_t>() : 2;
        if (s.std == Std::LPDDR5 || s.std == Std::LPDDR6) { wck.rate = p.DR / s.t("WCK2CK"); wckAlways = s.j["memarchitecturespec"]["WCKalwaysOn"].get<bool>(); if (wckAlways) wck.on = {{0, INF}}; }
        else if (p.width == 16) strobes = 2;
        if (hasPins()) for (uint64_t i = 0; i < width / 8; ++i) { rdbi.push_back(BitBus(1, p.DR, idleH)); wdbi.push_back(BitBus(1, p.DR, idleH)); }
        rk.resize(p.ranks);
    }
    bool hasPins() const { return sp.std == Std::LPDDR4 || sp.std == Std::LPDDR5 || (sp.std == Std::DDR4 && p.width != 4); }
    bool canDbi() const { return hasPins() || sp.std == Std::LPDDR6; }
    bool split() const { return sp.std == Std::LPDDR5 || sp.std == Std::LPDDR6; }
    uint64_t caCyclesOf(C c) const { auto i = tab.find(c); if (i == tab.end()) return 0; uint64_t k = ca.width * ca.dr; return (i->second.size() + k - 1) / k; }

    static bool isRead(C c) { return c == C::RD || c == C::RDA; }
    static bool isWrite(C c) { return c == C::WR || c == C::WRA; }
    // level of one descriptor
    bool bit(const std::string& d, const Cmd& c, uint64_t len) const {
        if (d == "H") return true; if (d == "L" || d == "ZERO") return false;
        if (d == "V" || d == "X") return idleH;
        bool rdc = isRead(c.c);
        auto num = [&](std::size_t k) { return std::stoul(d.substr(k)); };
        if (sp.std == Std::LPDDR6) {
            if (d == "BL") return len == 24; if (d == "C0") return len == 24 && (c.col & 1); if (d == "SC" || d == "PAR") return false;
            if (d.rfind("DBG", 0) == 0) return ((c.bank + 8) % 16 / p.groups) >> num(3) & 1;
        }
        if (d.rfind("CID", 0) == 0) return true;
        if (d.rfind("BG", 0) == 0) return c.bg >> num(2) & 1;
        if (d.rfind("BA", 0) == 0) return c.bank >> num(2) & 1;
        if (d == "BL") return len == 32;              // LPDDR4
        if (d[0] == 'R') return c.row >> num(1) & 1;
        if (d[0] == 'C') { auto k = num(1);
            switch (sp.std) {   // burst-length dependent column bits
            case Std::DDR4: if (k <= 2) { if (len == 4) return rdc ? false : k != 2; return !rdc; } break;
            case Std::DDR5: if (k <= 1) return true; if (len == 8) { if (k == 3) return false; if (k == 2) return !rdc; } else { if (k == 2 || k == 3) return !rdc; if (len == 32 && k == 10) return false; } break;
            case Std::LPDDR4: if (k == 2 || k == 3) return false; if (k == 4 && len == 32) return false; break;
            case Std::LPDDR5: if (k == 0 && len == 32) return false; break;
            default: break; }
            return c.col >> k & 1; }
        throw std::logic_error("model: descriptor " + d);
    }
    std::vector<bool> encode(const Cmd& c, uint64_t len) const {
        const Pat& q = tab.at(c.c); std::vector<bool> v(q.size()); for (std::size_t i = 0; i < q.size(); ++i) v[i] = bit(q[i], c, len);
        if (parity && sp.std == Std::LPDDR6) for (std::size_t g = 0; g < q.size(); g += 16) { bool x = false; for (std::size_t i = g; i < g + 16; ++i) x ^= v[i]; for (std::size_t i = g; i < g + 16; ++i) if (q[i] == "PAR") v[i] = x; }
        return v;
    }
    void command(const Cmd& c, uint64_t len) {
        if (!tab.count(c.c)) return;
        auto v = encode(c, len); std::vector<Word> w; 
        for (std::size_t k = 0; k * ca.width < v.size(); ++k) { uint64_t x = 0; for (uint64_t i = 0; i < ca.width; ++i) x |= uint64_t(v[k * ca.width + i]) << i; w.push_back({x}); }
        ca.loadWords(c.t * ca.dr, std::move(w)); ++caLoads;
    }
    // static data bus inversion over chunks of size/8 bytes
    std::vector<bool> invert(std::vector<uint8_t>& d, uint64_t bits, unsigned bytes) {
        std::vector<bool> inv(bits / 8 / bytes);
        for (std::size_t k = 0; k < inv.size(); ++k) { unsigned n = 0; for (unsigned i = 0; i < bytes; ++i) n += __builtin_popcount(d[k * bytes + i]); unsigned half = bytes * 4;
            inv[k] = idleH ? n < half : n > half; if (inv[k]) { ++inverted; for (unsigned i = 0; i < bytes; ++i) d[k * bytes + i] = uint8_t(~d[k * bytes + i]); } }
        return inv;
    }
    // LPDDR6 burst layout: 12 lines x 24 beats per 256 bits, metadata in beats 8..11 and inversion flags in beats 20..23 of lines 4, 5, 10 and 11
    std::vector<uint8_t> format6(const std::vector<uint8_t>& d, uint64_t bits, const std::vector<bool>& inv) const {
        uint64_t n = bits / 256; std::vector<uint8_t> out(n * 36, 0);
        static const int base[] = {0, 48, 96, 128, 176, 224};
        for (uint64_t h = 0; h < n; ++h) for (int beat = 0; beat < 24; ++beat) { int col = 0; for (int dq = 0; dq < 12; ++dq) {
            int grp = dq == 4 ? 0 : dq == 5 ? 1 : dq == 10 ? 2 : dq == 11 ? 3 : -1, blk = beat / 4; bool v;
            if (grp >= 0 && blk == 2) v = meta[h] >> (grp * 4 + beat % 4) & 1;
            else if (grp >= 0 && blk == 5) { uint64_t k = 16 * h + grp * 4 + beat % 4; v = k < inv.size() && inv[k]; }
            else { uint64_t i = 256 * h + base[blk] + 4 * col + beat % 4; v = d[i / 8] >> (i % 8) & 1; ++col; }
            uint64_t o = n * 288 - 1 - (h * 288 + beat * 12 + dq); if (v) out[o / 8] |= 1u << (o % 8); } }
        return out;
    }
    uint64_t beats(const Cmd& c) const { if (!c.bits) return p.BL; if (sp.std == Std::LPDDR6) return c.bits / 256 * 288 / width; return c.bits / width; }
    void apply(const Cmd& c) {
        if (c.c == C::END) return;
        if (!isRead(c.c) && !isWrite(c.c)) { command(c, 0); return; }
        bool r = isRead(c.c); uint64_t len = beats(c), cyc = len / p.DR; ++dataLoads;
        if (toggling) (r ? tR : tW).bursts.push_back({c.t * p.DR, c.t * p.DR + len});
        else if (!c.data.empty()) {
            auto d = c.data; uint64_t bits = c.bits; std::vector<bool> inv;
            if (dbi) { inv = invert(d, bits, sp.std == Std::LPDDR6 ? 2 : 1);
                if (hasPins()) { auto& pins = r ? rdbi : wdbi; for (std::size_t q = 0; q < pins.size(); ++q) { std::vector<Word> w; for (std::size_t k = q; k < inv.size(); k += pins.size()) w.push_back({uint64_t(bool(inv[k]) != idleH)}); pins[q].loadWords(c.t * p.DR, std::move(w)); } } }
            if (sp.std == Std::LPDDR6) { d = format6(d, bits, inv); bits = bits / 256 * 288; }
            (r ? rd : wr).loadPayload(c.t, d, bits);
        }
        if (split()) { if (r) rdqs.on.push_back({c.t, c.t + cyc}); if (!wckAlways) wck.on.push_back({c.t, c.t + cyc}); }
        else (r ? rdqs : wdqs).on.push_back({c.t, c.t + cyc});
        command(c, len);
        auto& k = rk[c.rank]; if (r) { k.rs += c.t == k.rEnd; k.rEnd = c.t + cyc; } else { k.ws += c.t == k.wEnd; k.wEnd = c.t + cyc; }
    }
    IfExpect expect(uint64_t T) const {
        IfExpect e; e.ca = ca.at(T); if (!toggling) { e.rd = rd.at(T); e.wr = wr.at(T); } e.togR = tR.at(T); e.togW = tW.at(T);
        e.clk = clk.at(T) * 2; e.wck = wck.at(T) * 2; e.rdqs = rdqs.at(T) * 2 * strobes; e.wdqs = wdqs.at(T) * 2 * strobes; if (split()) e.wdqs = {};
        if (!split() ) {} else if (sp.std == Std::LPDDR5 || sp.std == Std::LPDDR6) {}
        for (auto& x : rdbi) e.rdbi += x.at(T); for (auto& x : wdbi) e.wdbi += x.at(T);
        for (auto& k : rk) e.seamless.push_back({k.rs, k.ws});
        return e;
    }
};

// --- generation of data bursts
struct IfOpt { bool toggle = false, dbi = false, missing = false; };
inline Toggle gen_toggle(Src& s) {
    auto r = [&] { return s.chance(1, 5) ? (s.chance(1, 2) ? 0.0 : 1.0) : s.real(0, 1); };
    Toggle t{r(), r(), r(), r(), int(s.below(2)), int(s.below(2))}; s << "toggle rates r=" << t.trR << " w=" << t.trW << " duty r=" << t.dcR << " w=" << t.dcW << " idle r=" << t.idleR << " w=" << t.idleW << "\n"; return t;
}
inline std::vector<uint8_t> gen_bytes(Src& s, std::size_t n) {
    std::vector<uint8_t> d(n);
    switch (s.below(6)) {
    case 0: break;                                                   // all zero
    case 1: std::fill(d.begin(), d.end(), 0xff); break;
    case 2: { uint8_t a = uint8_t(s.below(256)), b = uint8_t(s.below(256)); for (std::size_t i = 0; i < n; ++i) d[i] = i & 1 ? a : b; break; }
    case 3: { std::size_t i = n ? s.below(n) : 0; if (n) d[i] = uint8_t(1u << s.below(8)); break; }
    default: { uint64_t x = s.below(1ull << 62) * 2 + 1; unsigned bias = unsigned(s.below(3)); for (auto& v : d) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; v = uint8_t(x >> 24); if (bias == 1) v &= uint8_t(x >> 32); if (bias == 2) v |= uint8_t(x >> 32); } } }
    return d;
}
inline std::vector<uint64_t> burstLens(const Spec& sp) {
    switch (sp.std) { case Std::DDR4: return {8, 4}; case Std::DDR5: return {16, 8, 32}; case Std::LPDDR4: return {16, 32}; case Std::LPDDR5: return {16, 32}; default: return {24, 48}; }
}
// Draws an interface-capable specification.
inline Spec gen_ispec(Src& s, SpecOpt o = {}) {
    Spec sp = gen_spec(s, o); auto& A = sp.j["memarchitecturespec"];
    uint64_t dev = sp.std == Std::LPDDR6 ? 1 + s.below(2) : s.chance(1, 6) ? 1 + s.below(s.chance(1, 4) ? 80 : 20) : 1 + s.below(4);
    while (dev > 1 && dev * A["width"].get<uint64_t>() > 1400) dev /= 2;
    A["nbrOfDevices"] = dev;
    if (sp.std == Std::LPDDR5) { uint64_t r = sp.t("WCK2CK"); A["dataRate"] = s.pick<uint64_t>({r, r, 2 * r, 2 * r > 4 ? 8 : 4}); }
    if (sp.std == Std::LPDDR6 && s.chance(1, 3)) A["dataRate"] = s.pick<int>({4, 8});
    s << "devices " << dev << " dataRate " << A["dataRate"].get<uint64_t>() << "\n";
    return sp;
}
inline void burst(Gen& g, Cmd& k, const IfModel& m, bool absent) {
    Src& s = g.s; auto lens = burstLens(g.sp); uint64_t len = s.pick(lens);
    if (g.sp.std != Std::LPDDR6 && s.chance(1, 24)) len = m.p.DR * (1 + s.below(*std::max_element(lens.begin(), lens.end()) / m.p.DR));   // another size: whole clock cycles
    if (g.sp.std == Std::LPDDR6) k.bits = m.width == 24 ? 512 : len == 48 ? 512 : 256; else k.bits = len * m.width;
    if (m.toggling && s.chance(1, 2)) { k.bits = 0; if (s.chance(1, 8)) {} return; }
    if (absent && s.chance(1, 6)) return;               // no payload
    k.data = gen_bytes(s, (k.bits + 7) / 8);
}
} // namespace vf
