// The code under test behind its own public base class.
#pragma once
#include <memory>
#include <optional>
#include "core.hpp"
#include <DRAMPower/dram/dram_base.h>
namespace vf {
using Dram = DRAMPower::dram_base<DRAMPower::CmdType>;
void set_parity(Dram& d, bool on);      // LPDDR6 command-bus parity
bool get_parity(Dram& d);
void set_clock(Dram& d, uint64_t t, bool on);   // LPDDR6 interface switched on and off
bool get_clock(Dram& d);
// how: 0 copy construction, 1 copy assignment onto a used object, 2 move construction, 3 move assignment
std::unique_ptr<Dram> clone(const Spec& s, Dram& d, int how, std::unique_ptr<Dram> target = nullptr);
std::unique_ptr<Dram> make_dram(const Spec& s, const std::optional<Toggle>& t = std::nullopt);
inline DRAMPower::Command conv(const Cmd& c) {
    using T = DRAMPower::CmdType;
    static const T m[] = {T::NOP, T::RD, T::WR, T::RDA, T::WRA, T::ACT, T::PRE, T::REFB, T::REFP2B, T::REFDB, T::PRESB, T::REFSB, T::PREA, T::REFA, T::PDEA, T::PDEP, T::PDXA, T::PDXP, T::SREFEN, T::SREFEX, T::DSMEN, T::DSMEX, T::END_OF_SIMULATION};
    return DRAMPower::Command{c.t, m[int(c.c)], DRAMPower::TargetCoordinate(c.bank, c.bg, c.rank, c.row, c.col), c.data.empty() ? nullptr : c.data.data(), std::size_t(c.bits)};
}
}
