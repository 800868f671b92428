// Command traces: what is written is what is read, and malformed rows are refused.
#include "cli.hpp"
#include <DRAMPower/cli/run.hpp>
#include <DRAMPower/cli/util.hpp>
using namespace DRAMPower; using pbt::Src; using pbt::eq;
struct Row { uint64_t f[6]; std::string cmd; std::vector<uint8_t> data; bool extra = false; };   // f: time, rank, bank group, bank, row, column
static const char* names[] = {"NOP", "RD", "WR", "RDA", "WRA", "ACT", "PRE", "REFB", "REFP2B", "REFDB", "PRESB", "REFSB", "PREA", "REFA", "PDEA", "PDEP", "PDXA", "PDXP", "SREFEN", "SREFEX", "DSMEN", "DSMEX", "END_OF_SIMULATION"};
static bool carries(const std::string& c) { return c == "RD" || c == "WR" || c == "RDA" || c == "WRA"; }
static int code(const std::string& c) { if (c == "END") return 22; for (int i = 0; i < 23; ++i) if (c == names[i]) return int(i); return 0; }
static CmdType type(int i) { static const CmdType t[] = {CmdType::NOP, CmdType::RD, CmdType::WR, CmdType::RDA, CmdType::WRA, CmdType::ACT, CmdType::PRE, CmdType::REFB, CmdType::REFP2B, CmdType::REFDB, CmdType::PRESB, CmdType::REFSB, CmdType::PREA, CmdType::REFA, CmdType::PDEA, CmdType::PDEP, CmdType::PDXA, CmdType::PDXP, CmdType::SREFEN, CmdType::SREFEX, CmdType::DSMEN, CmdType::DSMEX, CmdType::END_OF_SIMULATION}; return t[i]; }
static std::string hex(Src& s, const std::vector<uint8_t>& d) { unsigned p = s.below(3); std::string h = p == 0 ? "" : p == 1 ? "0x" : "0X"; bool up = s.chance(1, 2); for (auto b : d) { char t[3]; std::snprintf(t, 3, up ? "%02X" : "%02x", b); h += t; } return h; }
static std::string pad(Src& s, const std::string& t, bool on) { if (!on) return t; auto w = [&] { std::string r; unsigned n = s.below(3); while (n--) r += s.chance(1, 3) ? '\t' : ' '; return r; }; return w() + t + w(); }
static Row gen(Src& s) { Row r; for (auto& x : r.f) x = s.chance(1, 8) ? s.below(1ull << s.range(1, 62)) : s.below(20); r.cmd = s.chance(1, 2) ? names[1 + s.below(4)] : s.chance(1, 8) ? "END" : s.chance(1, 12) ? s.pick<std::string>({"act", "READ", "X", "RD1"}) : names[s.below(23)]; if (carries(r.cmd)) { std::size_t n = 1 + s.below(s.chance(1, 4) ? 200 : 16); r.data.resize(n); for (auto& b : r.data) b = s.chance(1, 4) ? 0 : s.below(256); } else r.extra = s.chance(1, 8); return r; }
static std::vector<std::string> cells(Src& s, const Row& r) { std::vector<std::string> c{std::to_string(r.f[0]), r.cmd}; for (int i = 1; i < 6; ++i) c.push_back(std::to_string(r.f[i])); if (!r.data.empty()) c.push_back(hex(s, r.data)); else if (r.extra) c.push_back(s.pick<std::string>({"", "0102", "text"})); return c; }
static std::string line(Src& s, const std::vector<std::string>& c, bool blanks) { std::string l; for (std::size_t i = 0; i < c.size(); ++i) l += (i ? "," : "") + pad(s, c[i], blanks); return l; }
struct File { std::vector<std::string> lines; bool crlf, last; std::string text() const { std::string t; for (std::size_t i = 0; i < lines.size(); ++i) t += lines[i] + (i + 1 < lines.size() || last ? crlf ? "\r\n" : "\n" : ""); return t; } };
using List = std::vector<std::pair<Command, std::unique_ptr<uint8_t[]>>>;
static bool read(const std::string& t, List& l) { vf::put("trace.csv", t); try { return DRAMPowerCLI::parse_command_list("trace.csv", l); } catch (const std::exception& e) { throw pbt::Fail(std::string("reading the trace throws: ") + e.what()); } }
static void large(Src& s);
static void valid(Src& s) {
    if (s.chance(1, 3000)) return large(s);
    vf::Scratch d; std::vector<Row> rows(s.chance(1, 20) ? 1 + s.below(3000) : 1 + s.below(12)); File f; f.crlf = s.chance(1, 4); f.last = s.chance(3, 4); bool blanks = s.chance(1, 2); unsigned loads = 0;
    for (auto& r : rows) { r = gen(s); f.lines.push_back(line(s, cells(s, r), blanks)); loads += !r.data.empty(); if (rows.size() < 40) s << "  " << f.lines.back() << "\n"; }
    List l; eq(read(f.text(), l), true, "trace accepted"); eq(l.size(), rows.size(), "number of commands");
    for (std::size_t i = 0; i < rows.size(); ++i) { auto& c = l[i].first; auto& r = rows[i]; std::string w = "row " + std::to_string(i) + ": "; eq(c.timestamp, r.f[0], w + "time"); eq(int(c.type), int(type(code(r.cmd))), w + "command"); eq(c.targetCoordinate.rank, r.f[1], w + "rank"); eq(c.targetCoordinate.bankGroup, r.f[2], w + "bank group"); eq(c.targetCoordinate.bank, r.f[3], w + "bank"); eq(c.targetCoordinate.row, r.f[4], w + "row"); eq(c.targetCoordinate.column, r.f[5], w + "column"); eq(c.sz_bits, r.data.size() * 8, w + "payload size"); eq(c.data != nullptr, !r.data.empty(), w + "payload present"); for (std::size_t k = 0; k < r.data.size(); ++k) eq(int(c.data[k]), int(r.data[k]), w + "payload byte " + std::to_string(k)); }
    s.interesting(rows.size() > 1 ? loads : 0);
}
static void malformed(Src& s) {
    vf::Scratch d; std::size_t n = 1 + s.below(6), bad = s.below(n); File f{{}, s.chance(1, 4), s.chance(3, 4)}; std::string what; bool blanks = s.chance(1, 2);
    for (std::size_t i = 0; i < n; ++i) {
        Row r = gen(s); if (i != bad) { f.lines.push_back(line(s, cells(s, r), blanks)); continue; }
        unsigned k = s.below(5); if (k < 3 && !carries(r.cmd)) { r.cmd = names[1 + s.below(4)]; r.data.assign(1 + s.below(20), s.below(256)); r.extra = false; } auto c = cells(s, r);
        if (k == 0) { c.pop_back(); what = "payload missing"; }
        else if (k == 1) { c.back().erase(c.back().size() - 1 - s.below(2 * r.data.size()), 1); what = "odd number of digits"; }
        else if (k == 2) { std::size_t p = c.back().size() - 1 - s.below(2 * r.data.size()); c.back()[p] = s.pick({'g', 'x', '+', '-', '.', ' ', 'O', 'Z', '\t', '_'}); if ((p == 0 || p + 1 == c.back().size()) && (c.back()[p] == ' ' || c.back()[p] == '\t')) c.back()[p] = 'h'; what = "digit that is none"; if (r.data.size() > 0 && p == 1 && (c.back()[1] == 'x') && c.back()[0] == '0') c.back()[1] = 'y'; }
        else if (k == 3) { c.resize(1 + s.below(6)); what = "columns missing"; }
        else { std::size_t p = s.pick<std::size_t>({0, 2, 3, 4, 5, 6}); c[p] = s.pick<std::string>({"", "x", "-1", "1x", "RD", "1.5", "0y1", "--", "-20000000000"}); what = "column " + std::to_string(p) + " is no number"; }
        f.lines.push_back(line(s, c, blanks && k != 2)); }
    for (auto& l : f.lines) s << "  " << l << "\n"; s << "  (" << what << " in row " << bad << ")\n"; List l; eq(read(f.text(), l), false, "trace with a malformed row accepted (" + what + ")"); s.interesting(1);
}
static void payload(Src& s) {
    std::string t; std::vector<uint8_t> d(s.below(12)); for (auto& b : d) b = s.below(256); t = hex(s, d); bool ok = true; bool pre = t.size() > 1 && (t[1] == 'x' || t[1] == 'X');
    unsigned edits = s.below(3); for (unsigned i = 0; i < edits && t.size() > (pre ? 2 : 0); ++i) { std::size_t p = (pre ? 2 : 0) + s.below(t.size() - (pre ? 2 : 0)); const char cs[] = "0123456789abcdefABCDEFxXgG +-."; t[p] = cs[s.below(sizeof cs - 1)]; }
    if (s.chance(1, 6) && !t.empty()) t.pop_back();
    s << "  \"" << t << "\"\n"; std::string h = t; if (h.size() >= 2 && h[0] == '0' && (h[1] == 'x' || h[1] == 'X')) h = h.substr(2); std::vector<uint8_t> want; if (h.size() % 2) ok = false; for (char ch : h) if (!std::isxdigit((unsigned char)ch)) ok = false; if (ok) for (std::size_t i = 0; i < h.size(); i += 2) want.push_back(uint8_t(std::stoul(h.substr(i, 2), nullptr, 16)));
    std::size_t size = 0; std::unique_ptr<uint8_t[]> got; bool threw = false; try { got = DRAMPowerCLI::util::hexStringToUint8Array(t, size); } catch (const std::exception&) { threw = true; } eq(threw, !ok, "text refused"); if (ok) { eq(size, want.size(), "bytes"); for (std::size_t i = 0; i < size; ++i) eq(int(got[i]), int(want[i]), "byte " + std::to_string(i)); } s.interesting(t.size() > 1);
}
// A trace that is longer than what the reader takes in at once (10 MB): a row or its line ending lies across the border, or a single row is longer than that; now and then one row is malformed.
static void large(Src& s) {
    vf::Scratch d; const std::size_t B = 10000000; uint64_t x = s.raw64() | 1; bool crlf = s.chance(1, 2), bad = s.chance(1, 5), giant = s.chance(1, 4), final = s.chance(3, 4); std::size_t borders = s.chance(1, 6) ? 2 : 1; std::string nl = crlf ? "\r\n" : "\n";
    struct M { uint64_t t, row; std::size_t bytes; uint8_t first; }; std::vector<M> m; std::string t; t.reserve(B * borders + 900000); static const char* h = "0123456789abcdef";
    auto rnd = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
    auto put = [&](const M& k, std::size_t zeros) { t += std::to_string(k.t); t += k.bytes ? ",WR,0,1,2," : ",ACT,1,0,3,"; t.append(zeros, '0'); t += std::to_string(k.row); t += ",5"; if (k.bytes) { t += ','; for (std::size_t i = 0; i < k.bytes; ++i) { uint8_t b = uint8_t(k.first + i); t += h[b >> 4]; t += h[b & 15]; } } t += nl; m.push_back(k); };
    auto any = [&] { uint64_t r = rnd(); return M{r % (1ull << (r >> 32) % 40), r % 100003, (r & 3) ? 0 : 1 + (r >> 8) % 100, uint8_t(r >> 16)}; };
    if (giant) { for (unsigned n = s.chance(1, 2) ? 0 : s.below(50); n; --n) put(any(), 0); put({7, 3, B / 2 - 20 + s.below(40) + (s.chance(1, 4) ? B : 0), 5}, 0); for (unsigned n = s.below(50); n; --n) put(any(), 0); }
    else for (std::size_t b = 1; b <= borders; ++b) {   // the row that ends near the border: its last character is put a few characters before or behind it
        while (t.size() + 1000 < B * b) put(any(), 0);
        std::size_t end = B * b + s.below(5) - 2; M k = any(); k.bytes = 0; std::string w = std::to_string(k.t) + ",ACT,1,0,3," + std::to_string(k.row) + ",5" + nl; put(k, end - t.size() - w.size()); for (unsigned n = s.below(3000); n; --n) put(any(), 0); }
    if (!final) t.resize(t.size() - nl.size());
    std::size_t at = 0; if (bad) { at = t.find('\n', s.chance(1, 2) ? t.size() - 1 - s.below(t.size() / 2) : 0); at = at == std::string::npos || at + 1 >= t.size() ? 0 : at + 1; t[at] = 'x'; }
    s << "  " << m.size() << " rows, " << t.size() << " bytes" << (crlf ? ", CR LF" : "") << (giant ? ", one row longer than the border" : "") << (bad ? ", malformed at byte " + std::to_string(at) : std::string()) << "\n"; s.label(giant ? "giant row" : "row at the border"); List l; eq(read(t, l), !bad, "large trace accepted");
    if (!bad) { eq(l.size(), m.size(), "number of commands of a large trace"); for (std::size_t i = 0; i < m.size(); ++i) { auto& c = l[i].first; auto& k = m[i]; bool ok = c.timestamp == k.t && c.targetCoordinate.row == k.row && c.targetCoordinate.column == 5 && c.type == (k.bytes ? CmdType::WR : CmdType::ACT) && c.sz_bits == k.bytes * 8; for (std::size_t n = 0; ok && n < k.bytes; ++n) ok = c.data[n] == uint8_t(k.first + n); CHECK_MSG(ok, "row " << i << " of a large trace is not what was written"); } }
    s.interesting();
}
int main(int c, char** v) {
    pbt::Property p; p.id = "L01"; p.quick_cases = 180000; p.thorough_cases = 2000000;
    p.rule = "random traces of 1 to 3000 rows, and some of more than 10 MB (the amount the reader takes in at once), of every command with payloads of 1 to 200 bytes, addresses and times up to 2^62, hexadecimal with and without prefix in both cases, blanks and tabs around fields, both line endings, with and without a final newline, read back and compared field by field; traces with exactly one malformed row, which must be refused; payload texts after random edits; non-trivial when a payload was read in a trace of several rows, or something was refused or parsed";
    p.assumptions = {"columns of rows that need no payload may follow the seventh", "times and addresses are below 2^63"};
    p.scenarios = {{"valid traces", valid, 3, 1}, {"malformed traces", malformed, 2, 1}, {"payload texts", payload, 2, 1}};
    return pbt::pbt_main(c, v, p);
}
