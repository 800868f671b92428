#include <DRAMUtils/memspec/MemSpec.h>
#include <DRAMPower/standards/ddr4/DDR4.h>
#include <DRAMPower/standards/ddr5/DDR5.h>
#include <DRAMPower/standards/lpddr4/LPDDR4.h>
#include <DRAMPower/standards/lpddr5/LPDDR5.h>
#include <DRAMPower/standards/lpddr6/LPDDR6.h>
#include <cmath>
#include <cstdio>
#include <functional>
#include <fstream>
#include <memory>
#include <sstream>
using namespace DRAMPower;
using C = CmdType;
using Dev = dram_base<CmdType>;
inline json_t spec(const char* name) { std::ifstream f(std::string(RES) + name + ".json"); return json_t::parse(f, nullptr, true, true).at("memspec"); }
template <typename D, typename M, typename U> std::unique_ptr<Dev> mk(const json_t& j) { M m(j.get<U>()); return std::make_unique<D>(m, config::SimConfig{}); }
inline std::unique_ptr<Dev> make(const char* name, const std::function<void(json_t&)>& edit = [](json_t&) {}) {
    namespace U = DRAMUtils::MemSpec; json_t j = spec(name); edit(j); std::string n = name;
    if (n == "ddr4") return mk<DDR4, MemSpecDDR4, U::MemSpecDDR4>(j);
    if (n == "ddr5") return mk<DDR5, MemSpecDDR5, U::MemSpecDDR5>(j);
    if (n == "lpddr4") return mk<LPDDR4, MemSpecLPDDR4, U::MemSpecLPDDR4>(j);
    if (n == "lpddr5") return mk<LPDDR5, MemSpecLPDDR5, U::MemSpecLPDDR5>(j);
    return mk<LPDDR6, MemSpecLPDDR6, U::MemSpecLPDDR6>(j);
}
inline TargetCoordinate at(std::size_t rank, std::size_t bg, std::size_t bank, std::size_t row = 0, std::size_t col = 0) { return TargetCoordinate(bank, bg, rank, row, col); }
inline int failures = 0;
template <typename A, typename B> void same(const char* what, A got, B want) { if (!(got == A(want))) { ++failures; std::printf("%s: got %g, expected %g\n", what, double(got), double(want)); } }
inline void close(const char* what, double got, double want) { if (!(std::fabs(got - want) <= 1e-9 * std::max(std::fabs(got), std::fabs(want)))) { ++failures; std::printf("%s: got %.12g, expected %.12g\n", what, got, want); } }
inline int done() { std::printf(failures ? "FAILED\n" : "ok\n"); return failures ? 1 : 0; }
