BUGS = [
dict(id="B32", property="L04", flags="-DNDEBUG", edits=[("util/RegisterHelper.h", """        if (cmd.targetCoordinate.bank >= rank.banks.size()) {
            throw std::invalid_argument("Invalid bank targetcoordinate");
        }
        auto bank_id = cmd.targetCoordinate.bank;

        return (owner->*member_func)(cmd.targetCoordinate.rank, bank_id, cmd.timestamp);""", """        if (cmd.targetCoordinate.bank > rank.banks.size()) {
            throw std::invalid_argument("Invalid bank targetcoordinate");
        }
        auto bank_id = cmd.targetCoordinate.bank;

        return (owner->*member_func)(cmd.targetCoordinate.rank, bank_id, cmd.timestamp);""")],
 needs="a release build (no assertions) and a DDR5 same-bank refresh whose bank is exactly the number of banks", breaks="the refresh is accepted and counted for the first bank of every bank group", demo='''
int main() { auto d = make("ddr5"); auto j = spec("ddr5"); std::size_t n = j["memarchitecturespec"]["nbrOfBanks"]; bool thrown = false; try { d->doCoreCommand({100, C::REFSB, at(0, 0, n)}); } catch (const std::exception&) { thrown = true; }
    same("refused", thrown, true); same("refreshes of bank 0", d->getWindowStats(5000).bank[0].counter.refSameBank, 0u); return done(); }'''),
dict(id="B33", property="R02", edits=[("standards/ddr5/core_calculation_DDR5.cpp", "auto rho = m_memSpec.bwParams.bwPowerFactRho;", "static const double rho = m_memSpec.bwParams.bwPowerFactRho;")],
 needs="two DDR5 devices with different bank-wise shares in one process", breaks="the background energy of every later device is computed with the share of the first one", demo='''
int main() { auto run = [](double rho) { auto d = make("ddr5", [&](json_t& j) { j["bankwisespec"]["factRho"] = rho; }); d->doCoreCommand({10, C::ACT, at(0, 0, 0)}); return d->calcCoreEnergy(100000).E_bg_act_shared; };
    double a = run(1.0), b = run(0.5); same("shared background depends on the share", a != b, true); return done(); }'''),
dict(id="B34", property="R02", edits=[("standards/lpddr6/LPDDR6Interface.h", "        std::vector<uint8_t> m_formatResult{};", "        inline static std::vector<uint8_t> m_formatResult{};")],
 needs="two LPDDR6 devices transferring data in parallel threads", breaks="the devices share the buffer in which a burst is laid out, so one device transfers bits of the other", demo='''
#include <thread>
int main() { auto run = [](uint8_t v, std::size_t* out) { auto d = make("lpddr6"); std::vector<uint8_t> z(32, v); for (int i = 1; i < 4000; ++i) d->doInterfaceCommand({uint64_t(i) * 100, C::WR, at(0, 0, 0), z.data(), 256}); *out = d->getWindowStats(500000).writeBus.ones; };
    std::size_t want[2], got[8]; run(0, &want[0]); run(255, &want[1]); for (int k = 0; k < 3; ++k) { std::vector<std::thread> t; for (int i = 0; i < 8; ++i) t.emplace_back(run, i % 2 ? 255 : 0, &got[i]); for (auto& x : t) x.join(); for (int i = 0; i < 8; ++i) same("ones on the write bus", got[i], want[i % 2]); } return done(); }'''),
dict(id="B35", property="R01", edits=[("util/burst_storage.h", """                bool bit_value = (data[byte_index] >> bit_position) & 1;""", """                bool bit_value = (byte >> bit_position) & 1;"""), ("util/burst_storage.h", """                    ++byte_index;
                }""", """                    byte = data[++byte_index];
                }"""), ("util/burst_storage.h", """        size_t byte_index = 0;
        size_t bit_index = 0;
        for""", """        size_t byte_index = 0;
        size_t bit_index = 0;
        uint8_t byte = data[0];
        for""")],
 needs="a payload behind which no memory can be read", breaks="every transfer reads one byte beyond its payload", demo='''
#include <sys/mman.h>
int main() { auto j = spec("ddr4"); std::size_t w = j["memarchitecturespec"]["width"], dev = j["memarchitecturespec"]["nbrOfDevices"], BL = j["memarchitecturespec"]["burstLength"], n = w * dev * BL / 8; auto d = make("ddr4");
    auto* p = static_cast<uint8_t*>(mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); mprotect(p + 4096, 4096, PROT_NONE); std::fill_n(p, 4096, 0xFF);
    d->doInterfaceCommand({10, C::WR, at(0, 0, 0), p + 4096 - n, n * 8}); same("transferred", d->getWindowStats(1000).writeBus.ones >= n * 8, true); return done(); }'''),
]
