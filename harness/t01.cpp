// Command names, command properties and the command record.
#include "pbt.hpp"
#include <DRAMPower/command/Command.h>
#include <set>
using namespace DRAMPower; using pbt::Src; using pbt::eq;
static const std::vector<std::pair<CmdType, std::string>>& table() {
    static const std::vector<std::pair<CmdType, std::string>> t{{CmdType::NOP, "NOP"}, {CmdType::RD, "RD"}, {CmdType::WR, "WR"}, {CmdType::RDA, "RDA"}, {CmdType::WRA, "WRA"}, {CmdType::ACT, "ACT"}, {CmdType::PRE, "PRE"}, {CmdType::REFB, "REFB"}, {CmdType::REFP2B, "REFP2B"}, {CmdType::REFDB, "REFDB"}, {CmdType::PRESB, "PRESB"}, {CmdType::REFSB, "REFSB"}, {CmdType::PREA, "PREA"}, {CmdType::REFA, "REFA"}, {CmdType::PDEA, "PDEA"}, {CmdType::PDEP, "PDEP"}, {CmdType::PDXA, "PDXA"}, {CmdType::PDXP, "PDXP"}, {CmdType::SREFEN, "SREFEN"}, {CmdType::SREFEX, "SREFEX"}, {CmdType::DSMEN, "DSMEN"}, {CmdType::DSMEX, "DSMEX"}, {CmdType::END_OF_SIMULATION, "END_OF_SIMULATION"}};
    return t;
}
static CmdType expected(const std::string& n) { if (n == "END") return CmdType::END_OF_SIMULATION; for (auto& k : table()) if (k.second == n) return k.first; return CmdType::NOP; }
static const char* say(CmdType c) { return CmdTypeUtil::to_string(c); }
static void names(Src& s) {
    auto& t = table(); eq(t.size(), std::size_t(CmdType::COUNT), "number of commands"); auto& k = t[s.below(t.size())];
    eq(std::string(say(k.first)), k.second, "name"); std::ostringstream o; CmdTypeUtil::operator<<(o, k.first); eq(o.str(), k.second, "printed name"); eq(int(CmdTypeUtil::from_string(say(k.first))), int(k.first), "command of its own name");
    eq(std::string(say(CmdType::COUNT)), std::string("NOP"), "name of the end marker"); eq(CmdTypeUtil::needs_data(k.first), k.second == "RD" || k.second == "RDA" || k.second == "WR" || k.second == "WRA", k.second + " carries data"); eq(CmdTypeUtil::needs_data(CmdType::COUNT), false, "the end marker carries data");
    std::string w = s.chance(1, 8) ? "END" : k.second; unsigned edits = s.below(4);
    for (unsigned i = 0; i < edits; ++i) { const char cs[] = "ABDEFINOPRSTWX2_ \0adx,"; char c = s.chance(3, 4) ? cs[s.below(sizeof cs)] : char(s.below(256)); std::size_t p = s.below(w.size() + 1);
        switch (s.below(5)) { case 0: w.insert(w.begin() + p, c); break; case 1: if (p < w.size()) w.erase(w.begin() + p); break; case 2: if (p < w.size()) w[p] = c; break; case 3: w += t[s.below(t.size())].second; break; default: if (p < w.size()) w[p] = char(std::tolower(w[p])); break; } }
    s << "  \"" << w << "\"\n"; eq(int(CmdTypeUtil::from_string(w)), int(expected(w)), "command named " + w); std::string pad = "ACT" + w + "RDA"; eq(int(CmdTypeUtil::from_string(std::string_view(pad).substr(3, w.size()))), int(expected(w)), "command named by a part of a longer text");
    s.interesting(edits || w == "END");
}
static std::size_t num(Src& s) { return s.chance(1, 3) ? s.raw64() : s.below(100); }
static void record(Src& s) {
    std::size_t b = num(s), g = num(s), r = num(s), w = num(s), c = num(s); unsigned n = 3 + s.below(3); TargetCoordinate t = n == 3 ? TargetCoordinate(b, g, r) : n == 4 ? TargetCoordinate(b, g, r, w) : TargetCoordinate(b, g, r, w, c);
    eq(t.bank, b, "bank"); eq(t.bankGroup, g, "bank group"); eq(t.rank, r, "rank"); eq(t.row, n > 3 ? w : 0, "row"); eq(t.column, n > 4 ? c : 0, "column"); TargetCoordinate z; eq(z.bank + z.bankGroup + z.rank + z.row + z.column, std::size_t(0), "default coordinate");
    uint8_t d[4] = {1, 2, 3, 4}; std::size_t bits = num(s); uint64_t at = num(s); auto& k = table()[s.below(table().size())]; bool data = s.chance(1, 2); Command q = data ? Command(at, k.first, t, d, bits) : Command(at, k.first, t);
    eq(q.timestamp, at, "time"); eq(int(q.type), int(k.first), "type"); eq(q.targetCoordinate.bank, b, "bank of the command"); eq(q.targetCoordinate.bankGroup, g, "bank group of the command"); eq(q.targetCoordinate.rank, r, "rank of the command"); eq(q.targetCoordinate.row, t.row, "row of the command"); eq(q.targetCoordinate.column, t.column, "column of the command"); eq(q.data == (data ? d : nullptr), true, "data"); eq(q.sz_bits, data ? bits : 0, "size");
    Command e(at, k.first); eq(e.targetCoordinate.bank + e.targetCoordinate.bankGroup + e.targetCoordinate.rank + e.targetCoordinate.row + e.targetCoordinate.column + e.sz_bits, std::size_t(0), "command without a target"); s.interesting(n > 3);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "T01"; p.quick_cases = 6750000; p.thorough_cases = 30000000;
    p.rule = "every command's name printed and read back, and texts derived from command names by zero to three random edits (inserted, removed, replaced, lower-cased characters, names glued together), read as a command and compared with an independent table; command records with random coordinates; non-trivial when the text was edited or the coordinate has a row";
    p.assumptions = {};
    p.scenarios = {{"names", names, 4, 1}, {"records", record, 1, 1}};
    return pbt::pbt_main(c, v, p);
}
