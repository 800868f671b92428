// Pattern encoding: every bit of every encoded word, with overrides and history; pattern tables; command dispatch.
#include "pbt.hpp"
#include <DRAMPower/util/PatternHandler.h>
#include <DRAMPower/util/Router.h>
using namespace DRAMPower; using pbt::Src; using pbt::eq; namespace pd = pattern_descriptor;
struct D { pd::t d; const char* n; char kind; unsigned idx; };          // kind: h/l fixed, v default low, c default high, b bank, g group, k column, r row, 0 no meaning here
static const std::vector<D>& all() { using namespace pattern_descriptor; static const std::vector<D> v = {{L, "L", 'l', 0}, {H, "H", 'h', 0}, {V, "V", 'v', 0}, {X, "X", 'v', 0}, {AP, "AP", 'v', 0}, {BL, "BL", 'c', 0}, {CID0, "CID0", 'c', 0}, {CID1, "CID1", 'c', 0}, {CID2, "CID2", 'c', 0}, {CID3, "CID3", 'c', 0},
    {BA0, "BA0", 'b', 0}, {BA1, "BA1", 'b', 1}, {BA2, "BA2", 'b', 2}, {BA3, "BA3", 'b', 3}, {BA4, "BA4", 'b', 4}, {BA5, "BA5", 'b', 5}, {BA6, "BA6", 'b', 6}, {BA7, "BA7", 'b', 7}, {BA8, "BA8", 'b', 8}, {BG0, "BG0", 'g', 0}, {BG1, "BG1", 'g', 1}, {BG2, "BG2", 'g', 2},
    {C0, "C0", 'k', 0}, {C1, "C1", 'k', 1}, {C2, "C2", 'k', 2}, {C3, "C3", 'k', 3}, {C4, "C4", 'k', 4}, {C5, "C5", 'k', 5}, {C6, "C6", 'k', 6}, {C7, "C7", 'k', 7}, {C8, "C8", 'k', 8}, {C9, "C9", 'k', 9}, {C10, "C10", 'k', 10}, {C11, "C11", 'k', 11}, {C12, "C12", 'k', 12}, {C13, "C13", 'k', 13}, {C14, "C14", 'k', 14}, {C15, "C15", 'k', 15}, {C16, "C16", 'k', 16},
    {R0, "R0", 'r', 0}, {R1, "R1", 'r', 1}, {R2, "R2", 'r', 2}, {R3, "R3", 'r', 3}, {R4, "R4", 'r', 4}, {R5, "R5", 'r', 5}, {R6, "R6", 'r', 6}, {R7, "R7", 'r', 7}, {R8, "R8", 'r', 8}, {R9, "R9", 'r', 9}, {R10, "R10", 'r', 10}, {R11, "R11", 'r', 11}, {R12, "R12", 'r', 12}, {R13, "R13", 'r', 13}, {R14, "R14", 'r', 14}, {R15, "R15", 'r', 15}, {R16, "R16", 'r', 16}, {R17, "R17", 'r', 17}, {R18, "R18", 'r', 18}, {R19, "R19", 'r', 19}, {R20, "R20", 'r', 20}, {R21, "R21", 'r', 21}, {R22, "R22", 'r', 22}, {R23, "R23", 'r', 23}}; return v; }
static bool overridable(const D& d) { return d.kind == 'v' || d.kind == 'c' || (d.kind == 'k' && (d.idx <= 4 || d.idx == 10)); }   // the command bits, and the column bits that depend on the burst length
using Pat = std::vector<D>; using Ov = std::map<pd::t, PatternEncoderBitSpec>;
static Pat gen(Src& s, unsigned maxLen = 64) { unsigned n = 1 + s.below(s.chance(1, 3) ? maxLen : 12); Pat p; for (unsigned i = 0; i < n; ++i) p.push_back(all()[s.below(all().size())]); return p; }
static std::vector<pd::t> raw(const Pat& p) { std::vector<pd::t> v; for (auto& d : p) v.push_back(d.d); return v; }
static std::string show(const Pat& p) { std::string t; for (auto& d : p) t += std::string(t.empty() ? "" : " ") + d.n; return t; }
static uint64_t expect(const Pat& p, const TargetCoordinate& t, const Ov& o, uint64_t last) {
    uint64_t w = 0;                                                       // the first descriptor is the most significant bit
    for (std::size_t i = 0; i < p.size(); ++i) { std::size_t pos = p.size() - 1 - i; const D& d = p[i]; bool b = false;
        switch (d.kind) { case 'h': b = true; break; case 'l': case 'v': b = false; break; case 'c': b = true; break; case 'b': b = t.bank >> d.idx & 1; break; case 'g': b = t.bankGroup >> d.idx & 1; break; case 'k': b = t.column >> d.idx & 1; break; default: b = t.row >> d.idx & 1; }
        auto it = o.find(d.d); if (it != o.end() && overridable(d)) b = it->second == PatternEncoderBitSpec::H ? true : it->second == PatternEncoderBitSpec::L ? false : (last >> pos & 1);
        if (b) w |= 1ull << pos; }
    return w;
}
static TargetCoordinate coord(Src& s) { auto n = [&](unsigned bits) -> std::size_t { return s.chance(1, 3) ? s.below(1ull << bits) : s.chance(1, 2) ? 1ull << s.below(bits) : (1ull << bits) - 1; }; TargetCoordinate t; t.bank = n(9); t.bankGroup = n(3); t.rank = s.below(4); t.row = n(24); t.column = n(17); return t; }
static PatternEncoderBitSpec spec(Src& s) { return s.pick({PatternEncoderBitSpec::L, PatternEncoderBitSpec::H, PatternEncoderBitSpec::LAST_BIT}); }
static std::string hex(uint64_t v) { std::ostringstream o; o << std::hex << v; return o.str(); }
template <typename F, std::size_t... I> void nth(unsigned k, F&& f, std::index_sequence<I...>) { ((I == k ? f(std::integral_constant<CmdType, static_cast<CmdType>(I)>{}) : void()), ...); }
template <typename F> void forCmd(unsigned k, F&& f) { nth(k, f, std::make_index_sequence<std::size_t(CmdType::COUNT)>{}); }

static void encode(Src& s) {
    Ov o; PatternEncoderOverrides ov; for (unsigned i = s.below(6); i; --i) { const D& d = all()[s.chance(3, 4) ? 2 + s.below(8) : s.below(all().size())]; auto b = spec(s); o[d.d] = b; ov.updateSettings({{d.d, b}}); s << d.n << (b == PatternEncoderBitSpec::H ? " high\n" : b == PatternEncoderBitSpec::L ? " low\n" : " as last\n"); }
    PatternEncoder e(ov); auto p = gen(s); auto t = coord(s); uint64_t last = s.raw64(); s << show(p) << "\nbank " << t.bank << " group " << t.bankGroup << " row " << t.row << " column " << t.column << " last " << hex(last) << "\n";
    uint64_t got = e.encode(t, raw(p), last), want = expect(p, t, o, last); eq(hex(got), hex(want), "encoded word"); s.interesting(p.size() > 3);
}
// A command table over a whole history, reconfigured, saved and resumed on the way.
static void history(Src& s) {
    using PH = PatternHandler<CmdType>; uint64_t last = s.chance(1, 2) ? s.raw64() : 0; Ov o; std::vector<PatternEncoderSettingsEntry<>> init; std::map<unsigned, Pat> tab; unsigned kinds = 1 + s.below(5);
    PH h(PatternEncoderOverrides{}, last); unsigned ops = 2 + s.below(25), n = 0; std::set<pd::t> used;
    auto set = [&](PH& x, const std::map<unsigned, Pat>& tb) { for (auto& kv : tb) forCmd(kv.first, [&](auto c) { x.registerPattern<decltype(c)::value>(raw(kv.second)); }); };
    for (unsigned i = 0; i < kinds; ++i) tab[s.below(unsigned(CmdType::COUNT))] = gen(s); set(h, tab);
    for (auto& kv : tab) s << "command " << kv.first << ": " << show(kv.second) << "\n";
    for (unsigned i = 0; i < ops; ++i) switch (s.below(8)) {
        case 0: { const D& d = all()[s.chance(3, 4) ? 2 + s.below(8) : s.below(all().size())]; auto b = spec(s); o[d.d] = b; h.getEncoder().settings.updateSettings({{d.d, b}}); s << "  " << d.n << " set to " << int(b) << "\n"; eq(h.getEncoder().settings.hasSetting(d.d), true, "override present"); eq(int(h.getEncoder().settings.getSetting(d.d)), int(b), "override"); break; }
        case 1: { const D& d = all()[s.below(all().size())]; bool had = o.erase(d.d); eq(h.getEncoder().settings.removeSetting(d.d), had, "override removed"); eq(int(h.getEncoder().settings.getSetting(d.d)), int(PatternEncoderBitSpec::INVALID), "override after removal"); s << "  " << d.n << " back to default\n"; break; }
        case 2: { unsigned k = s.below(unsigned(CmdType::COUNT)); tab[k] = gen(s); set(h, {{k, tab[k]}}); s << "  command " << k << " now " << show(tab[k]) << "\n"; break; }
        case 3: { std::stringstream st; h.serialize(st); PH r(PatternEncoderOverrides{{pd::V, PatternEncoderBitSpec::H}, {pd::C4, PatternEncoderBitSpec::L}}, s.raw64()); set(r, tab); r.deserialize(st); eq(std::size_t(st.tellg()), st.str().size(), "bytes read back"); h = r; s << "  saved and resumed\n"; break; }
        case 4: { auto p = gen(s); auto t = coord(s); uint64_t w = expect(p, t, o, last); s << "  pattern " << show(p) << "\n"; eq(hex(h.getCoordinatePattern(t, raw(p))), hex(w), "encoded pattern"); last = w; bool threw = false; try { h.getCoordinatePattern(t, {}); } catch (const std::runtime_error&) { threw = true; } eq(threw, true, "an empty pattern is rejected"); break; }
        default: { unsigned k; if (s.chance(5, 6)) { auto it = tab.begin(); std::advance(it, s.below(tab.size())); k = it->first; } else k = s.below(unsigned(CmdType::COUNT)); auto t = coord(s); s << "  command " << k << " bank " << t.bank << " group " << t.bankGroup << " row " << t.row << " column " << t.column << "\n";
            if (tab.count(k)) { uint64_t w = expect(tab[k], t, o, last); eq(hex(h.getCommandPattern(static_cast<CmdType>(k), t)), hex(w), "word of command " + std::to_string(k)); last = w; ++n; eq(h.getPattern(static_cast<CmdType>(k)) == raw(tab[k]), true, "stored pattern"); }
            else { bool threw = false; try { h.getCommandPattern(static_cast<CmdType>(k), t); } catch (const std::runtime_error&) { threw = true; } eq(threw, true, "a command without a pattern is rejected"); } break; } }
    s.interesting(n);
}
// Each command reaches the handler registered last for its kind, once and unchanged, and the default handler otherwise.
static void router(Src& s) {
    std::vector<std::pair<int, Command>> got; bool def = s.chance(1, 2); using R = Router<CmdType>; std::optional<R::commandHandler_t> dh; if (def) dh = [&](const Command& c) { got.emplace_back(-1, c); }; R r(dh); eq(r.size(), std::size_t(CmdType::COUNT), "routes"); std::map<unsigned, int> tab; int id = 0; unsigned ops = 1 + s.below(30), calls = 0;
    for (unsigned i = 0; i < ops; ++i) {
        unsigned k = s.below(unsigned(CmdType::COUNT));
        if (s.chance(1, 3)) { tab[k] = ++id; int me = id; forCmd(k, [&](auto c) { r.routeCommand<decltype(c)::value>([&got, me](const Command& x) { got.emplace_back(me, x); }); }); s << "route " << k << " to " << me << "\n"; continue; }
        if (!tab.empty() && s.chance(2, 3)) { auto it = tab.begin(); std::advance(it, s.below(tab.size())); k = it->first; }
        uint8_t b[2] = {1, 2}; Command c(s.below(1000), static_cast<CmdType>(k), coord(s), s.chance(1, 2) ? b : nullptr, s.below(17)); got.clear(); R copy = r; (s.chance(1, 3) ? copy : r).executeCommand(c); s << "command " << k << "\n";
        bool hit = tab.count(k) || def; eq(got.size(), std::size_t(hit), "handlers called"); if (hit) { eq(got[0].first, tab.count(k) ? tab[k] : -1, "handler"); auto& g = got[0].second; eq(g.timestamp == c.timestamp && g.type == c.type && g.data == c.data && g.sz_bits == c.sz_bits && g.targetCoordinate.bank == c.targetCoordinate.bank && g.targetCoordinate.row == c.targetCoordinate.row && g.targetCoordinate.column == c.targetCoordinate.column && g.targetCoordinate.rank == c.targetCoordinate.rank && g.targetCoordinate.bankGroup == c.targetCoordinate.bankGroup, true, "command passed on unchanged"); ++calls; }
    }
    s.interesting(calls);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "U04"; p.quick_cases = 3600000; p.thorough_cases = 30000000;
    p.rule = "random patterns of up to 64 descriptors over random coordinates, overrides and previous words, and random histories of commands, table changes, overrides and save/resume; every word compared with a table of what each descriptor stands for; random dispatch tables; non-trivial when at least two commands were encoded or dispatched, or the pattern had at least four descriptors";
    p.assumptions = {"overrides apply to the command bits (V, X, AP, BL, CID) and to column bits 0 to 4 and 10", "the descriptors A0 to A17 carry no coordinate and are not used"};
    p.scenarios = {{"single word", encode, 3, 1}, {"command history", history, 3, 2}, {"dispatch", router, 1, 2}};
    return pbt::pbt_main(c, v, p);
}
