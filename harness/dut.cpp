#include "dut.hpp"
#include <DRAMPower/standards/ddr4/DDR4.h>
#include <DRAMPower/standards/ddr5/DDR5.h>
#include <DRAMPower/standards/lpddr4/LPDDR4.h>
#include <DRAMPower/standards/lpddr5/LPDDR5.h>
#include <DRAMPower/standards/lpddr6/LPDDR6.h>
namespace vf {
namespace {
template <typename D, typename M, typename U> std::unique_ptr<Dram> mk(const Spec& s, const std::optional<Toggle>& t) {
    M ms(s.j.get<U>());
    DRAMPower::config::SimConfig cfg;
    if (t) { using P = DRAMUtils::Config::TogglingRateIdlePattern;
        cfg.toggleRateDefinition = DRAMUtils::Config::ToggleRateDefinition{t->trR, t->trW, t->dcR, t->dcW, t->idleR ? P::H : P::L, t->idleW ? P::H : P::L}; }
    return std::make_unique<D>(ms, cfg);
}
}
template <typename D> static std::unique_ptr<Dram> cl(Dram& d, int how, std::unique_ptr<Dram> target) {
    D& x = static_cast<D&>(d);
    switch (how) { case 0: return std::make_unique<D>(static_cast<const D&>(x)); case 1: static_cast<D&>(*target) = static_cast<const D&>(x); return target; case 2: return std::make_unique<D>(std::move(x)); default: static_cast<D&>(*target) = std::move(x); return target; }
}
std::unique_ptr<Dram> clone(const Spec& s, Dram& d, int how, std::unique_ptr<Dram> t) {
    using namespace DRAMPower;
    switch (s.std) { case Std::DDR4: return cl<DDR4>(d, how, std::move(t)); case Std::DDR5: return cl<DDR5>(d, how, std::move(t)); case Std::LPDDR4: return cl<LPDDR4>(d, how, std::move(t)); case Std::LPDDR5: return cl<LPDDR5>(d, how, std::move(t)); default: return cl<LPDDR6>(d, how, std::move(t)); }
}
void set_parity(Dram& d, bool on) { static_cast<DRAMPower::LPDDR6&>(d).getInterface().setParityCheckMode(on); }
void set_clock(Dram& d, uint64_t t, bool on) { auto& i = static_cast<DRAMPower::LPDDR6&>(d).getInterface(); if (on) i.enable(t); else i.disable(t); }
bool get_clock(Dram& d) { return static_cast<DRAMPower::LPDDR6&>(d).getInterface().isEnabled(); }
bool get_parity(Dram& d) { return static_cast<DRAMPower::LPDDR6&>(d).getInterface().getParityCheckMode(); }
std::unique_ptr<Dram> make_dram(const Spec& s, const std::optional<Toggle>& t) {
    namespace U = DRAMUtils::MemSpec; using namespace DRAMPower;
    switch (s.std) {
    case Std::DDR4: return mk<DDR4, MemSpecDDR4, U::MemSpecDDR4>(s, t);
    case Std::DDR5: return mk<DDR5, MemSpecDDR5, U::MemSpecDDR5>(s, t);
    case Std::LPDDR4: return mk<LPDDR4, MemSpecLPDDR4, U::MemSpecLPDDR4>(s, t);
    case Std::LPDDR5: return mk<LPDDR5, MemSpecLPDDR5, U::MemSpecLPDDR5>(s, t);
    default: return mk<LPDDR6, MemSpecLPDDR6, U::MemSpecLPDDR6>(s, t);
    }
}
}
