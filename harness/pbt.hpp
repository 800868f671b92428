// Small property-based testing engine.
//
// A case is a pure function of a sequence of bounded choices. In search mode the
// choices come from a seeded generator and are recorded; in replay mode they come
// from a recorded list (clipped to the bound, 0 when exhausted), so that any edit
// of the list is again a valid case: shrinking deletes spans of choices and lowers
// values. Cases run in forked workers, so a crash, an assertion or a hang of the
// code under test is a failing case like any other and is shrunk in child processes.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <nlohmann/json.hpp>

namespace pbt {
using json = nlohmann::json;

struct Fail : std::exception {
    std::string msg;
    explicit Fail(std::string m) : msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard {};

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// Source of choices plus the record of what the case looked like.
class Src {
public:
    explicit Src(uint64_t seed) : m_rng(seed), m_replay(false) {}
    explicit Src(std::vector<uint64_t> c) : m_choices(std::move(c)), m_rng(0), m_replay(true) {}

    // Uniform in [0, n). 0 is always the simplest value.
    uint64_t below(uint64_t n) {
        if (n <= 1) return 0;
        uint64_t v;
        if (m_replay) {
            v = m_pos < m_choices.size() ? m_choices[m_pos] : 0;
            if (v >= n) v = n - 1;
            if (m_pos < m_choices.size()) m_choices[m_pos] = v;
            ++m_pos;
        } else {
            v = splitmix(m_rng) % n;
            m_choices.push_back(v);
            ++m_pos;
        }
        return v;
    }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    uint64_t raw64() { return (below(1ull << 32) << 32) | below(1ull << 32); }
    // true with probability num/den; false is the simple value
    bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    // index by weight
    std::size_t weighted(const std::vector<unsigned>& w) {
        uint64_t tot = 0; for (auto x : w) tot += x;
        uint64_t r = below(tot);
        for (std::size_t i = 0; i < w.size(); ++i) { if (r < w[i]) return i; r -= w[i]; }
        return w.size() - 1;
    }
    double real(double lo, double hi, unsigned steps = 4096) { return lo + (hi - lo) * double(below(steps + 1)) / steps; }

    const std::vector<uint64_t>& choices() const { return m_choices; }
    std::size_t used() const { return m_pos; }

    // reporting
    bool verbose = false;
    std::ostringstream log;
    std::map<std::string, uint64_t> labels;
    uint64_t weight = 0;       // non-trivial events seen in this case
    void label(const std::string& s, uint64_t n = 1) { labels[s] += n; }
    void interesting(uint64_t n = 1) { weight += n; }
    template <typename T> Src& operator<<(const T& t) { if (verbose) log << t; return *this; }
private:
    std::vector<uint64_t> m_choices;
    uint64_t m_rng;
    bool m_replay;
    std::size_t m_pos = 0;
};

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK_MSG(cond, ...) do { if (!(cond)) { std::ostringstream o_; o_ << __VA_ARGS__; throw ::pbt::Fail(o_.str()); } } while (0)

template <typename A, typename B> void eq(const A& got, const B& want, const std::string& what) {
    if (!(got == want)) { std::ostringstream o; o << what << ": got " << got << ", expected " << want; throw Fail(o.str()); }
}
// Relative comparison of energies; scale gives the magnitude of the terms that were added up.
inline void near(double got, double want, const std::string& what, double scale = 0, double rel = 1e-9) {
    double m = std::max({std::fabs(got), std::fabs(want), std::fabs(scale)});
    bool ok = (std::isnan(got) && std::isnan(want)) || got == want || std::fabs(got - want) <= rel * m;
    if (!ok) { std::ostringstream o; o.precision(17); o << what << ": got " << got << ", expected " << want; throw Fail(o.str()); }
}

struct Scenario {
    std::string name;
    std::function<void(Src&)> fn;
    unsigned weight = 1;
    uint64_t min_interesting = 1;   // weight from which a case counts as non-trivial
};

struct Property {
    std::string id;
    std::string rule;                // how cases are made and what makes one non-trivial
    uint64_t quick_cases, thorough_cases;
    std::vector<Scenario> scenarios;
    std::vector<std::string> assumptions;
    unsigned case_timeout = 60;
    bool fresh = false;              // run every case in a process of its own that has run no case before
    std::vector<Scenario> known;     // fixed inputs of recorded defects: each must either pass or be listed in the findings file
};

struct Outcome { enum K { OK, FAIL, DISCARD, CRASH } k = OK; std::string msg; std::vector<uint64_t> choices; std::string desc;
                 uint64_t weight = 0; std::map<std::string, uint64_t> labels; };

inline Outcome run_here(const Scenario& sc, Src& s) {
    Outcome o;
    try { sc.fn(s); }
    catch (const Fail& f) { o.k = Outcome::FAIL; o.msg = f.msg; }
    catch (const Discard&) { o.k = Outcome::DISCARD; }
    catch (const std::exception& e) { o.k = Outcome::FAIL; o.msg = std::string("unexpected exception: ") + e.what(); }
    catch (...) { o.k = Outcome::FAIL; o.msg = "unexpected non-standard exception"; }
    o.choices = s.choices();
    if (o.choices.size() > s.used()) o.choices.resize(s.used());
    o.weight = s.weight; o.labels = s.labels;
    if (s.verbose) o.desc = s.log.str();
    return o;
}

inline std::string read_all(int fd) {
    std::string r; char b[65536]; ssize_t n;
    while ((n = ::read(fd, b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) r.append(b, n);
    return r;
}
// As read_all, but ends the writing process once the deadline has passed: a sanitizer runtime can block in a signal handler.
inline std::string read_all_or_kill(int fd, pid_t pid, unsigned seconds) {
    std::string r; char b[65536]; auto end = std::chrono::steady_clock::now() + std::chrono::seconds(seconds);
    for (;;) {
        double left = std::chrono::duration<double>(end - std::chrono::steady_clock::now()).count();
        if (left <= 0) { ::kill(pid, SIGKILL); return r + read_all(fd); }
        fd_set fs; FD_ZERO(&fs); FD_SET(fd, &fs); timeval tv{long(left) + 1, 0};
        int k = ::select(fd + 1, &fs, nullptr, nullptr, &tv); if (k <= 0) continue;
        ssize_t n = ::read(fd, b, sizeof b); if (n > 0) r.append(b, n); else if (n == 0 || errno != EINTR) return r;
    }
}
[[noreturn]] inline void raw_exit(int code) { for (;;) ::syscall(SYS_exit_group, code); }   // past the interceptors of a sanitizer
inline void write_all(int fd, const std::string& s) {
    std::size_t p = 0; while (p < s.size()) { ssize_t n = ::write(fd, s.data() + p, s.size() - p); if (n < 0) { if (errno == EINTR) continue; return; } p += n; }
}
inline void quiet_output() {
    int n = ::open("/dev/null", O_WRONLY); if (n >= 0) { ::dup2(n, 1); ::close(n); }
}

// Run a case in a child. The choice list is streamed into shared memory so that it survives a crash.
inline Outcome run_forked(const Scenario& sc, const std::vector<uint64_t>& choices, unsigned timeout, bool verbose, const uint64_t* seed = nullptr) {
    int p[2], e[2]; if (::pipe(p) || ::pipe(e)) { perror("pipe"); std::exit(3); }
    std::cout.flush(); std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        ::close(p[0]); ::close(e[0]); quiet_output(); ::dup2(e[1], 2); ::close(e[1]);
        ::alarm(timeout);
        Src s = seed ? Src(*seed) : Src(choices); s.verbose = verbose;
        Outcome o = run_here(sc, s);
        json j; j["k"] = int(o.k); j["msg"] = o.msg; j["c"] = o.choices; j["d"] = o.desc; j["w"] = o.weight; j["l"] = o.labels;
        write_all(p[1], j.dump(-1, ' ', false, json::error_handler_t::replace)); ::_exit(0);
    }
    ::close(p[1]); ::close(e[1]);
    // stderr is drained first by a tiny helper loop: both ends are small except sanitizer reports
    std::string out, err;
    auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(timeout + 20); bool killed = false;
    { fd_set fs; int a = p[0], b = e[0]; bool ao = true, bo = true; char buf[65536];
      while (ao || bo) { FD_ZERO(&fs); if (ao) FD_SET(a, &fs); if (bo) FD_SET(b, &fs);
        timeval tv{5, 0}; int k = select(std::max(a, b) + 1, &fs, nullptr, nullptr, &tv);
        if (!killed && std::chrono::steady_clock::now() > deadline) { killed = true; ::kill(pid, SIGKILL); }
        if (k < 0) { if (errno == EINTR) continue; break; }
        if (k == 0) continue;
        if (ao && FD_ISSET(a, &fs)) { ssize_t n = ::read(a, buf, sizeof buf); if (n <= 0) ao = false; else out.append(buf, n); }
        if (bo && FD_ISSET(b, &fs)) { ssize_t n = ::read(b, buf, sizeof buf); if (n <= 0) bo = false; else if (err.size() < 20000) err.append(buf, n); } } }
    ::close(p[0]); ::close(e[0]);
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !out.empty()) {
        json j = json::parse(out, nullptr, false);
        if (!j.is_discarded()) { o.k = Outcome::K(j["k"].get<int>()); o.msg = j["msg"]; o.choices = j["c"].get<std::vector<uint64_t>>(); o.desc = j["d"]; o.weight = j["w"]; o.labels = j["l"].get<std::map<std::string, uint64_t>>(); return o; }
    }
    o.k = Outcome::CRASH; o.choices = choices;
    std::ostringstream m;
    if (WIFSIGNALED(st)) m << (WTERMSIG(st) == SIGALRM ? "case did not finish within its time limit (signal " : "crashed with signal (") << WTERMSIG(st) << ")";
    else m << "process ended with status " << (WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    if (!err.empty()) m << "; stderr: " << err.substr(0, 1500);
    o.msg = m.str();
    return o;
}

inline bool bad(const Outcome& o) { return o.k == Outcome::FAIL || o.k == Outcome::CRASH; }

inline Outcome shrink(const Scenario& sc, Outcome best, unsigned timeout, double budget_s) {
    auto t0 = std::chrono::steady_clock::now();
    auto over = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget_s; };
    auto attempt = [&](std::vector<uint64_t> c) -> bool {
        if (over()) return false;
        while (!c.empty() && c.back() == 0) c.pop_back();
        if (c == best.choices) return false;
        if (c.size() > best.choices.size()) return false;
        Outcome o = run_forked(sc, c, timeout, false);
        if (!bad(o)) return false;
        if (o.choices.size() > c.size()) o.choices.resize(c.size());
        while (!o.choices.empty() && o.choices.back() == 0) o.choices.pop_back();
        best = o; return true;
    };
    while (!best.choices.empty() && best.choices.back() == 0) best.choices.pop_back();
    bool progress = true;
    while (progress && !over()) {
        progress = false;
        for (std::size_t w = std::max<std::size_t>(1, best.choices.size() / 2); w >= 1 && !over(); w /= 2) {
            for (std::size_t i = 0; i + w <= best.choices.size() && !over();) {
                auto c = best.choices; c.erase(c.begin() + i, c.begin() + i + w);
                if (attempt(c)) progress = true; else i += (w > 4 ? w / 2 : 1);
            }
            if (w == 1) break;
        }
        for (std::size_t w = 32; w >= 1 && !over(); w /= 2) {
            for (std::size_t i = 0; i < best.choices.size() && !over(); i += w) {
                auto c = best.choices; bool nz = false;
                for (std::size_t k = i; k < std::min(i + w, c.size()); ++k) { if (c[k]) nz = true; c[k] = 0; }
                if (nz && attempt(c)) progress = true;
            }
            if (w == 1) break;
        }
        for (std::size_t i = 0; i < best.choices.size() && !over(); ++i) {
            uint64_t lo = 0, hi = best.choices[i];
            while (lo < hi && !over()) {
                uint64_t mid = lo + (hi - lo) / 2;
                if (i >= best.choices.size()) break;
                auto c = best.choices; c[i] = mid;
                if (attempt(c)) { progress = true; if (i >= best.choices.size()) break; hi = std::min(mid, best.choices[i]); }
                else lo = mid + 1;
            }
        }
    }
    return best;
}

inline uint64_t hash_choices(const std::vector<uint64_t>& c, uint64_t salt) {
    uint64_t h = 1469598103934665603ull ^ salt;
    for (auto v : c) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; }
    return h;
}

inline uint64_t case_seed(uint64_t seed, const std::string& id, uint64_t i) {
    uint64_t s = seed * 0x2545F4914F6CDD1Dull + 12345;
    for (char ch : id) s = s * 131 + (unsigned char)ch;
    splitmix(s); s ^= i * 0x9E3779B97F4A7C15ull; splitmix(s); return splitmix(s);
}

struct Shared { std::atomic<uint64_t> current[64]; std::atomic<uint64_t> next; std::atomic<int> stop; };

inline std::vector<std::size_t> scenario_table(const Property& p) {
    std::vector<std::size_t> t;
    for (std::size_t i = 0; i < p.scenarios.size(); ++i) for (unsigned k = 0; k < p.scenarios[i].weight; ++k) t.push_back(i);
    return t;
}

inline int pbt_main(int argc, char** argv, const Property& prop) {
    std::string tier = "quick", replay, evidence, replay_dir = ".", only;
    uint64_t seed = 1, cases = 0; unsigned workers = 8; bool dump = false; double shrink_budget = 60; long one = -1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = next(); else if (a == "--seed") seed = std::stoull(next());
        else if (a == "--cases") cases = std::stoull(next()); else if (a == "--replay") replay = next();
        else if (a == "--evidence") evidence = next(); else if (a == "--replay-dir") replay_dir = next();
        else if (a == "--workers") workers = std::stoul(next()); else if (a == "--scenario") only = next();
        else if (a == "--dump") dump = true; else if (a == "--shrink") shrink_budget = std::stod(next());
        else if (a == "--case") one = std::stol(next());
        else { std::cerr << "unknown argument " << a << "\n"; return 2; }
    }
    auto t0 = std::chrono::steady_clock::now();
    if (!replay.empty()) {
        std::ifstream f(replay); json j = json::parse(f);
        std::string scn = j.at("scenario");
        auto list = prop.scenarios; list.insert(list.end(), prop.known.begin(), prop.known.end());
        for (auto& sc : list) if (sc.name == scn) {
            Outcome o = run_forked(sc, j.at("choices").get<std::vector<uint64_t>>(), prop.case_timeout, true);
            std::cout << o.desc << "\n" << (bad(o) ? "FAIL: " : "PASS ") << o.msg << "\n";
            return bad(o) ? 1 : 0;
        }
        std::cerr << "no scenario " << scn << "\n"; return 2;
    }
    if (!cases) cases = tier == "thorough" ? prop.thorough_cases : prop.quick_cases;
    auto table = scenario_table(prop);
    if (one >= 0) {
        const auto& sc = prop.scenarios[table[one % table.size()]];
        Src s(case_seed(seed, prop.id + sc.name, one)); s.verbose = true; Outcome o = run_here(sc, s);
        std::cout << sc.name << "\n" << o.desc << "\n" << (bad(o) ? "FAIL: " : "PASS ") << o.msg << "\n"; return bad(o);
    }
    auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    new (sh) Shared(); for (auto& c : sh->current) c = UINT64_MAX; sh->next = 0; sh->stop = 0;
    std::vector<pid_t> pids; std::vector<int> fds; std::vector<int> efds;
    std::cout.flush();
    for (unsigned w = 0; w < workers; ++w) {
        int p[2]; if (::pipe(p)) return 3;
        char tmpl[] = "/tmp/pbterrXXXXXX"; int ef = ::mkstemp(tmpl); ::unlink(tmpl);
        pid_t pid = fork();
        if (pid == 0) {
            ::close(p[0]); quiet_output(); ::dup2(ef, 2);
            uint64_t evals = 0, discards = 0, events = 0; std::unordered_set<uint64_t> seen; std::map<std::string, uint64_t> labels, per;
            json samples = json::array(); std::set<std::string> sampled; json failure;
            uint64_t nontrivial_cases = 0;
            for (uint64_t i; !sh->stop && (i = sh->next++) < cases;) {
                const auto& sc = prop.scenarios[table[i % table.size()]];
                if (!only.empty() && sc.name != only) continue;
                sh->current[w] = i; ::alarm(prop.case_timeout);
                Src s(case_seed(seed, prop.id + sc.name, i));
                bool take = i / table.size() >= 2 && !sampled.count(sc.name) && (w == 0 || i / table.size() < workers * 4);
                s.verbose = take;
                uint64_t cs = case_seed(seed, prop.id + sc.name, i); if (prop.fresh) ::alarm(0);
                Outcome o = prop.fresh ? run_forked(sc, {}, prop.case_timeout, take, &cs) : run_here(sc, s);
                ::alarm(0);
                ++evals; if (o.k == Outcome::DISCARD) { ++discards; continue; }
                for (auto& l : o.labels) labels[l.first] += l.second;
                ++per[sc.name]; events += o.weight;
                if (o.weight >= sc.min_interesting) { ++nontrivial_cases; seen.insert(hash_choices(o.choices, std::hash<std::string>()(sc.name))); }
                if (take && o.weight >= sc.min_interesting) { std::string d = o.desc; if (d.size() > 1500) d = d.substr(0, 1500) + " ..."; samples.push_back({{"scenario", sc.name}, {"case", i}, {"text", d}}); sampled.insert(sc.name); }
                if (bad(o)) { failure = {{"i", i}, {"msg", o.msg}, {"c", o.choices}, {"crash", o.k == Outcome::CRASH}}; sh->stop = 1; break; }
                sh->current[w] = UINT64_MAX;
            }
            json j; j["evals"] = evals; j["discards"] = discards; j["events"] = events; j["seen"] = std::vector<uint64_t>(seen.begin(), seen.end());
            j["labels"] = labels; j["per"] = per; j["samples"] = samples; j["failure"] = failure;
            write_all(p[1], j.dump(-1, ' ', false, json::error_handler_t::replace)); ::_exit(0);
        }
        ::close(p[1]); pids.push_back(pid); fds.push_back(p[0]); efds.push_back(ef);
    }
    uint64_t evals = 0, discards = 0, events = 0; std::unordered_set<uint64_t> seen; std::map<std::string, uint64_t> labels, per; json samples = json::array();
    bool failed = false; uint64_t fi = UINT64_MAX; std::vector<uint64_t> fchoices; std::string fmsg; bool crash = false;
    for (unsigned w = 0; w < workers; ++w) {
        std::string out = read_all(fds[w]); ::close(fds[w]); int st = 0; while (waitpid(pids[w], &st, 0) < 0 && errno == EINTR) {}
        json j = json::parse(out, nullptr, false);
        if (j.is_discarded()) {
            uint64_t i = sh->current[w];
            std::string err; ::lseek(efds[w], 0, SEEK_SET); err = read_all(efds[w]);
            if (i == UINT64_MAX) { std::cerr << "worker " << w << " ended abnormally outside a case (status " << st << "): " << err.substr(0, 2000) << "\n"; return 3; }
            if (!failed || i < fi) { failed = true; fi = i; crash = true; fmsg = "crash: " + (err.size() > 2000 ? err.substr(0, 2000) : err); }
            continue;
        }
        evals += j["evals"].get<uint64_t>(); discards += j["discards"].get<uint64_t>(); events += j["events"].get<uint64_t>();
        for (uint64_t h : j["seen"]) seen.insert(h);
        for (auto& [k, v] : j["labels"].items()) labels[k] += v.get<uint64_t>();
        for (auto& [k, v] : j["per"].items()) per[k] += v.get<uint64_t>();
        for (auto& s : j["samples"]) samples.push_back(s);
        if (!j["failure"].is_null()) { uint64_t i = j["failure"]["i"]; if (!failed || i < fi) { failed = true; fi = i; crash = j["failure"]["crash"]; fmsg = j["failure"]["msg"]; fchoices = j["failure"]["c"].get<std::vector<uint64_t>>(); } }
        ::close(efds[w]);
    }
    int rc = 0; std::string rpath;
    if (failed) {
        const auto& sc = prop.scenarios[table[fi % table.size()]];
        std::cout << "case " << fi << " (" << sc.name << ") fails: " << fmsg.substr(0, 800) << "\nshrinking...\n" << std::flush;
        Outcome o;
        if (crash) {
            // choices of a crashing case: regenerate them in a child that saves each draw as it is made
            auto* buf = static_cast<uint64_t*>(mmap(nullptr, 1 << 26, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            (void)buf;
            // The generator is pure, so a prefix large enough is obtained by drawing with the same seed and recorded bounds:
            // run it in a child with a SIGABRT/SEGV handler that dumps the choices.
            int p[2]; if (::pipe(p)) return 3;
            static int dumpfd; static Src* dumpsrc; dumpfd = p[1];
            pid_t pid = fork();
            if (pid == 0) {
                ::close(p[0]); quiet_output(); int n = ::open("/dev/null", O_WRONLY); ::dup2(n, 2);
                Src s(case_seed(seed, prop.id + sc.name, fi)); dumpsrc = &s;
                auto h = +[](int) { const auto& c = dumpsrc->choices(); std::size_t n = c.size() * 8, q = 0; const char* d = reinterpret_cast<const char*>(c.data());
                                    while (q < n) { ssize_t r = ::syscall(SYS_write, dumpfd, d + q, n - q); if (r <= 0) break; q += r; } raw_exit(1); };
                for (int sg : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGTERM}) ::signal(sg, h);
                static bool done; done = false;
                ::alarm(prop.case_timeout);
                std::atexit([] { if (!done) { const auto& c = dumpsrc->choices(); write_all(dumpfd, std::string(reinterpret_cast<const char*>(c.data()), c.size() * 8)); } });
                Outcome oo = run_here(sc, s); (void)oo; h(0);
            }
            ::close(p[1]); std::string raw = read_all_or_kill(p[0], pid, prop.case_timeout + 20); ::close(p[0]); int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            fchoices.resize(raw.size() / 8); std::memcpy(fchoices.data(), raw.data(), fchoices.size() * 8);
        }
        o = run_forked(sc, fchoices, prop.case_timeout, false);
        std::string note; Outcome v;
        if (!bad(o)) {   // state carried between cases, or a fault that depends on memory contents: report it unminimised
            if (fmsg.find("time limit") != std::string::npos || (crash && fmsg.size() < 9)) { std::cerr << "case " << fi << " did not finish once and could not be reproduced\n"; return 3; }
            o.k = Outcome::FAIL; o.choices = fchoices; o.msg = fmsg; v = o; note = " (did not fail again when run alone)";
            Outcome d = run_forked(sc, o.choices, prop.case_timeout, true); v.desc = d.desc;
        } else {
            Outcome first = o;
            o = shrink(sc, o, prop.case_timeout, shrink_budget);
            bool stable = true;
            for (int k = 0; k < 3; ++k) { v = run_forked(sc, o.choices, prop.case_timeout, true); if (!bad(v)) stable = false; }
            if (!stable) { o = first; v = run_forked(sc, o.choices, prop.case_timeout, true); if (!bad(v)) v.msg = first.msg; note = " (does not fail on every run)"; }
        }
        v.msg += note;
        ::mkdir(replay_dir.c_str(), 0777);
        rpath = replay_dir + "/" + prop.id + "-" + std::to_string(seed) + "-" + std::to_string(fi) + ".json";
        std::string desc = v.desc;
        json r = {{"property", prop.id}, {"scenario", sc.name}, {"seed", seed}, {"case", fi}, {"choices", o.choices}, {"message", v.msg}, {"case_text", desc}};
        std::ofstream(rpath) << r.dump(1, ' ', false, json::error_handler_t::replace) << "\n";
        std::cout << desc.substr(0, 6000) << "\nFAIL: " << v.msg << "\n";
        std::cout << "VIOLATION property=" << prop.id << " replay=" << rpath << std::endl;
        rc = 1;
    }
    json known_out = json::array();
    if (!failed && !prop.known.empty()) {
        json listed = json::array(); if (const char* f = std::getenv("PBT_FINDINGS")) { std::ifstream in(f); json k = json::parse(in, nullptr, false); if (!k.is_discarded() && k.contains("known")) listed = k["known"]; }
        for (auto& sc : prop.known) {
            Outcome o = run_forked(sc, {}, prop.case_timeout, true);
            known_out.push_back({{"input", sc.name}, {"fails", bad(o)}});
            if (!bad(o)) { std::cout << "recorded input no longer fails: " << sc.name << "\n"; continue; }
            std::string what; for (auto& l : listed) if (l.value("property", "") == prop.id && l.value("input", "") == sc.name) what = l.value("what", "");
            if (!what.empty()) { std::cout << "KNOWN-FINDING: property=" << prop.id << " " << what << std::endl; continue; }
            ::mkdir(replay_dir.c_str(), 0777); rpath = replay_dir + "/" + prop.id + "-fixed-input.json";
            std::ofstream(rpath) << json({{"property", prop.id}, {"scenario", sc.name}, {"choices", json::array()}, {"message", o.msg}, {"case_text", o.desc}}).dump(1, ' ', false, json::error_handler_t::replace) << "\n";
            std::cout << o.desc << "\nFAIL: " << o.msg << "\nVIOLATION property=" << prop.id << " replay=" << rpath << std::endl; rc = 1; failed = true;
        }
    }
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    json ev; ev["property"] = prop.id; ev["tier"] = tier; ev["seed"] = seed; ev["level"] = "exploration"; ev["wall_s"] = wall; ev["violations"] = failed ? 1 : 0;
    ev["coverage"] = {{"evaluations", evals}, {"distinct_nontrivial", seen.size()}, {"rule", prop.rule}, {"samples", samples}, {"discarded", discards}, {"interesting_events", events}, {"cases_per_scenario", per}, {"labels", labels}};
    ev["assumptions"] = prop.assumptions;
    if (!known_out.empty()) ev["coverage"]["recorded_inputs"] = known_out;
    if (!evidence.empty()) std::ofstream(evidence) << ev.dump(1, ' ', false, json::error_handler_t::replace) << "\n";
    std::cout << prop.id << " " << tier << " seed=" << seed << ": " << evals << " cases, " << seen.size() << " distinct non-trivial, " << discards << " discarded, " << wall << " s\n";
    if (dump) std::cout << ev.dump(1) << "\n";
    if (rc == 0 && seen.size() == 0) { std::cerr << "no non-trivial case was generated\n"; return 3; }
    return rc;
}
} // namespace pbt
