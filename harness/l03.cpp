// Where the tool writes, and what it refuses.
#include "cli.hpp"
#include <csignal>
#include <sys/resource.h>
using namespace vf; using pbt::Src; using pbt::eq;
static std::string spec() { static std::string t = [] { const char* r = std::getenv("PBT_REPO"); return get(fs::path(r) / "tests/tests_drampower/resources/ddr4.json"); }(); return t; }
static const char* CFG = "{\"useToggleRate\": false, \"simconfig\": {}}";
static const char* TRACE = "0,ACT,0,0,0,0,0\n15,RD,0,0,0,0,0,0102030405060708\n60,PRE,0,0,0,0,0\n200,END,0,0,0,0,0\n";
static void inputs(const fs::path& d) { put(d / "m.json", spec()); put(d / "c.json", CFG); put(d / "t.csv", TRACE); }
// Everything below a directory: kind and content.
static std::map<std::string, std::string> snapshot(const fs::path& d) { std::map<std::string, std::string> m; for (auto& e : fs::recursive_directory_iterator(d)) { std::string n = fs::relative(e.path().parent_path(), d).string() + "/" + e.path().filename().string(); if (e.is_symlink()) m[n] = "link " + fs::read_symlink(e.path()).string(); else if (e.is_directory()) m[n] = "dir"; else m[n] = "file " + get(e.path()); } return m; }
// What opening the path for writing reaches: independent walk over the links.
struct Reach { bool ok; fs::path file; };
static Reach reach(fs::path p, const fs::path& cwd) {
    if (p.is_relative()) p = cwd / p;
    for (int hops = 0; hops < 45; ++hops) {
        std::error_code e; fs::path parent = fs::canonical(p.parent_path(), e); if (e || !fs::is_directory(parent, e)) return {false, {}}; std::string n = p.filename().string(); if (n.empty() || n == "." || n == "..") return {false, {}};
        fs::path q = parent / n; auto st = fs::symlink_status(q, e); if (st.type() == fs::file_type::not_found) return {true, q}; if (st.type() == fs::file_type::regular) return {true, q}; if (st.type() != fs::file_type::symlink) return {false, {}};
        fs::path t = fs::read_symlink(q); p = t.is_absolute() ? t : parent / t;
    }
    return {false, {}};
}
static void output(Src& s) {
    Scratch sc; fs::path root = sc.dir / "w"; std::vector<fs::path> dirs{root}; fs::create_directory(root); unsigned nd = 1 + s.below(3); for (unsigned i = 0; i < nd; ++i) { fs::path d = dirs[s.below(dirs.size())] / ("d" + std::to_string(i)); fs::create_directory(d); dirs.push_back(d); }
    fs::path cwd = dirs[s.below(dirs.size())]; std::vector<fs::path> places; fs::current_path(cwd);
    unsigned nf = s.below(4), nl = s.below(6); for (unsigned i = 0; i < nf; ++i) { fs::path f = dirs[s.below(dirs.size())] / ("f" + std::to_string(i)); put(f, s.chance(1, 2) ? std::string(30000, '#') : "old"); places.push_back(f); }
    auto anywhere = [&]() -> fs::path { switch (s.below(7)) { case 0: return dirs[s.below(dirs.size())] / "new.json"; case 1: return dirs[s.below(dirs.size())] / "missing" / "new.json"; case 2: return s.chance(1, 2) ? dirs[s.below(dirs.size())] : dirs[s.below(dirs.size())] / std::string(300, 'n'); default: return places.empty() ? dirs[s.below(dirs.size())] / "new.json" : places[s.below(places.size())]; } };
    auto spell = [&](const fs::path& p, const fs::path& from) -> fs::path { fs::path r; switch (s.below(3)) { case 0: return p; case 1: r = p.lexically_relative(from); break; default: r = p.lexically_relative(from); r = fs::path(".") / r; } return r; };
    for (unsigned i = 0; i < nl; ++i) { fs::path at = dirs[s.below(dirs.size())] / ("l" + std::to_string(i)); fs::path to = s.chance(1, 10) ? at : s.chance(1, 6) ? dirs[s.below(dirs.size())] / ("l" + std::to_string(s.below(nl))) : anywhere(); fs::path t = spell(to, at.parent_path()); fs::create_symlink(t, at); s << "  " << fs::relative(at.parent_path(), root).string() << "/" << at.filename().string() << " -> " << (t.is_absolute() ? "ROOT/" + t.lexically_relative(root).string() : t.string()) << "\n"; places.push_back(at); }
    for (auto& f : places) if (!fs::is_symlink(fs::symlink_status(f))) s << "  file " << f.lexically_relative(root).string() << "\n";
    fs::path to = anywhere(), arg = spell(to, cwd); s << "  in " << cwd.lexically_relative(root).string() << ": -j " << (arg.is_absolute() ? "ROOT/" + arg.lexically_relative(root).string() : arg.string()) << "\n"; fs::path in = sc.dir / "in"; fs::create_directory(in); inputs(in);
    Reach w = reach(arg, cwd); auto before = snapshot(root); auto r = run_cli({"-c", in / "c.json", "-m", in / "m.json", "-t", in / "t.csv", "-j", arg.string()}, sc.dir / "log"); auto after = snapshot(root);
    if (w.ok) { std::string k = fs::relative(w.file.parent_path(), root).string() + "/" + w.file.filename().string(); if (r.code != 0) throw pbt::Fail("writable output path refused: " + r.out.substr(0, 300)); auto j = nlohmann::json::parse(get(w.file), nullptr, false); if (j.is_discarded() || !j.contains("TotalEnergy")) { std::string found; for (auto& kv : after) if (!before.count(kv.first)) found += " " + kv.first; throw pbt::Fail("no result at " + k + (found.empty() ? "" : ", new files:" + found)); } before.erase(k); after.erase(k); }
    else eq(r.code != 0, true, "unusable output path accepted, exit status not zero");
    for (auto& kv : before) if (!after.count(kv.first)) throw pbt::Fail(kv.first + " vanished"); else if (after[kv.first] != kv.second) throw pbt::Fail(kv.first + " was changed"); for (auto& kv : after) if (!before.count(kv.first)) throw pbt::Fail(kv.first + " was created"); s.interesting(nl);
}
// Every broken or missing input is refused with a status other than zero; nothing escapes as an exception.
static void refuse(Src& s) {
    Scratch sc; inputs("."); std::vector<std::string> a; bool drop = s.chance(1, 3); unsigned which = s.below(3); const char* o[3][3] = {{"-c", "--config", "c.json"}, {"-m", "--memspec", "m.json"}, {"-t", "--trace", "t.csv"}}; std::string what, name = o[which][2];
    unsigned how = drop ? 0 : 1 + s.below(5); bool keep = false;
    if (how == 1) { fs::remove(name); what = name + " missing"; } else if (how == 2) { fs::remove(name); fs::create_directory(name); what = name + " is a directory"; }
    else if (how >= 3) {
        if (which == 0) { std::vector<std::string> bad{"", "{", "[]", "null", "{\"useToggleRate\": true, \"simconfig\": {}}", "{\"useToggleRate\": true, \"simconfig\": {\"toggleRateDefinition\": null}}", "{\"useToggleRate\": \"yes\", \"simconfig\": {}}", "{\"simconfig\": {}}", "{\"useToggleRate\": false, \"simconfig\": {\"toggleRateDefinition\": {\"togglingRateRead\": 0.5}}}", "{\"useToggleRate\": true, \"simconfig\": {\"toggleRateDefinition\": {\"togglingRateRead\": 0.5, \"togglingRateWrite\": 0.5, \"dutyCycleRead\": 0.5, \"idlePatternRead\": \"L\", \"idlePatternWrite\": \"L\"}}}", "{\"useToggleRate\": true, \"simconfig\": 7}"}; std::string t = bad[s.below(bad.size())]; put(name, t); what = "configuration " + t; }
        else if (which == 1) {
            std::string t = spec(); auto j = nlohmann::json::parse(t);
            switch (s.below(5)) { case 0: t = t.substr(0, s.below(t.size() - 5)); what = "truncated specification"; break; case 1: j["memspec"]["memoryType"] = s.pick<std::string>({"DDR9", "", "ddr4"}); t = j.dump(); what = "unknown memory type"; break; case 2: j.erase("memspec"); t = j.dump(); what = "no specification"; break;
            case 3: { const char* sec[] = {"memarchitecturespec", "mempowerspec", "memtimingspec", "memimpedancespec"}; auto& q = j["memspec"][sec[s.below(4)]]; q = s.pick<nlohmann::json>({nullptr, "text", 3}); t = j.dump(); what = "a section is no object"; break; } default: { auto k = s.pick<std::pair<std::string, std::string>>({{"memarchitecturespec", "nbrOfBanks"}, {"memarchitecturespec", "nbrOfRanks"}, {"memtimingspec", "tCK"}, {"memtimingspec", "RAS"}, {"memtimingspec", "RP"}, {"mempowerspec", "vdd"}, {"mempowerspec", "idd0"}}); if (s.chance(1, 2)) j["memspec"][k.first][k.second] = "text"; else j["memspec"][k.first].erase(k.second); t = j.dump(); what = "unusable " + k.second; } } put(name, t); }
        else { std::vector<std::string> bad{"0,ACT,0,0,0,0\n", "0,RD,0,0,0,0,0\n", "0,RD,0,0,0,0,0,123\n", "0,WR,0,0,0,0,0,zz\n", "x,ACT,0,0,0,0,0\n", "0,ACT,0,-1,0,0,0\n", "0,ACT,0,,0,0,0\n", "timestamp,command,rank,bank_group,bank,row,column,data\n0,ACT,0,0,0,0,0\n"}; std::string t = bad[s.below(bad.size())]; if (s.chance(1, 2)) t = std::string(TRACE) + t; put(name, t); what = "trace " + t; }
    } else what = std::string("option ") + o[which][0] + " not given";
    for (unsigned i = 0; i < 3; ++i) { if (how == 0 && i == which) continue; a.push_back(o[i][s.below(2)]); a.push_back(o[i][2]); } if (s.chance(1, 8)) { a.push_back(s.pick<std::string>({"--unknown", "-x", "stray"})); what += ", unknown argument"; } bool json = s.chance(1, 2); if (json) { a.push_back("-j"); a.push_back("o.json"); }
    s << "  " << what << "\n"; auto r = run_cli(a, "log"); eq(r.code != 0, true, "refused (" + what + ")"); eq(r.out.empty(), false, "a reason is printed (" + what + ")"); if (json && fs::exists("o.json")) eq(get("o.json"), std::string(), "no result is written"); (void)keep; s.interesting(1);
}
// The device the result is written to has room for a part of it only.
static void noroom(Src& s) {
    Scratch sc; inputs("."); std::vector<std::string> a{"-c", "c.json", "-m", "m.json", "-t", "t.csv", "-j", "o.json"}; { auto j = nlohmann::json::parse(spec()); auto& m = j["memspec"]["memarchitecturespec"]; m["nbrOfRanks"] = 1 + s.below(3); m["nbrOfDevices"] = 1 + s.below(3); put("m.json", j.dump()); }
    eq(run_cli(a, "log").code, 0, "status with enough room"); std::string want = get("o.json"); uint64_t n = want.size(), room = s.chance(1, 3) ? n - 2 + s.below(5) : 512 + s.below(n); fs::remove("o.json"); if (s.chance(1, 2)) put("o.json", std::string(s.below(9000), 'x'));
    s << "  a result of " << n << " bytes, room for " << room << "\n"; rlimit old; getrlimit(RLIMIT_FSIZE, &old); rlimit lim{room, old.rlim_max}; auto sig = std::signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &lim); Ran r{0, ""}; auto restore = [&] { setrlimit(RLIMIT_FSIZE, &old); std::signal(SIGXFSZ, sig); };
    try { r = run_cli(a, "log"); } catch (...) { restore(); throw; }
    restore(); if (room >= n) { eq(r.code, 0, "status with just enough room"); eq(get("o.json") == want, true, "the result is the same"); } else { eq(r.code != 0, true, "the result is incomplete, the status is not zero"); eq(r.out.empty(), false, "a reason is printed"); } s.label(room >= n ? "it fits" : "it does not fit"); s.interesting(room < n);
}
int main(int c, char** v) {
    pbt::Property p; p.id = "L03"; p.quick_cases = 80000; p.thorough_cases = 600000;
    p.rule = "random small directory trees with files, directories and relative, absolute, chained, dangling and circular links, and the tool run in one of its directories with an output path into the tree, compared with an independent resolution of the path and a snapshot of the whole tree before and after; runs with one missing, unreadable or malformed input; and runs in which the device has room for only the first part of the result (file size limit); non-trivial when the tree has a link, an input was broken, or the result did not fit";
    p.assumptions = {"the tool runs as a user who may write everywhere in the tree"};
    p.scenarios = {{"output path", output, 6, 1}, {"refused inputs", refuse, 3, 1}, {"no room for the result", noroom, 1, 1}};
    return pbt::pbt_main(c, v, p);
}
