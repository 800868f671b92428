// The command line tool run inside a scratch directory.
#pragma once
#include <filesystem>
#include <fstream>
#include <fcntl.h>
#include <unistd.h>
#include "pbt.hpp"
int drampower_cli_main(int, char**);
namespace vf {
namespace fs = std::filesystem;
struct Scratch {           // a fresh directory of this case; the process works inside it meanwhile
    fs::path dir, back;
    Scratch() { const char* r = std::getenv("PBT_SCRATCH"); if (!r || !*r) throw std::runtime_error("PBT_SCRATCH is not set"); std::string t = std::string(r) + "/c-XXXXXX"; if (!::mkdtemp(t.data())) throw std::runtime_error("no scratch directory"); dir = fs::canonical(t); back = fs::current_path(); fs::current_path(dir); }
    ~Scratch() { std::error_code e; fs::current_path(back, e); fs::remove_all(dir, e); }
    Scratch(const Scratch&) = delete;
};
inline void put(const fs::path& p, const std::string& t) { std::ofstream(p, std::ios::binary) << t; }
inline std::string get(const fs::path& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
struct Ran { int code; std::string out; };
inline Ran run_cli(std::vector<std::string> args, const fs::path& log) {
    args.insert(args.begin(), "drampower_cli"); std::vector<char*> a; for (auto& x : args) a.push_back(x.data()); a.push_back(nullptr);
    std::fflush(nullptr); std::cout.flush(); std::cerr.flush(); int f = ::open(log.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600), o = ::dup(1), e = ::dup(2); ::dup2(f, 1); ::dup2(f, 2); ::close(f);
    auto restore = [&] { std::cout.flush(); std::cerr.flush(); std::fflush(nullptr); ::dup2(o, 1); ::dup2(e, 2); ::close(o); ::close(e); }; Ran r{-1, ""};
    try { r.code = drampower_cli_main(int(args.size()), a.data()); } catch (const std::exception& x) { restore(); throw pbt::Fail(std::string("the tool ends with an uncaught exception: ") + x.what()); } catch (...) { restore(); throw; }
    restore(); r.out = get(log); return r;
}
} // namespace vf
