// Stand-in, see util/json.h
#ifndef VERIF_SHIM_MEMSPEC_H
#define VERIF_SHIM_MEMSPEC_H
#include <filesystem>
#include <fstream>
#include <optional>
#include <stdexcept>
#include <string>
#include <variant>
#include <DRAMUtils/util/json_utils.h>
#include <DRAMUtils/memspec/standards/MemSpecDDR4.h>
#include <DRAMUtils/memspec/standards/MemSpecDDR5.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR4.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR5.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR6.h>
namespace DRAMUtils::MemSpec {
class MemSpecVariant {
public:
    using variant_t = std::variant<MemSpecDDR4, MemSpecDDR5, MemSpecLPDDR4, MemSpecLPDDR5, MemSpecLPDDR6>;
    MemSpecVariant() = default;
    template <typename T> MemSpecVariant(const T& t) : v(t) {}
    const variant_t& getVariant() const { return v; }
    void setVariant(const variant_t& x) { v = x; }
private:
    variant_t v;
};
template <typename T> bool tryParse(const json_t& j, const std::string& type, MemSpecVariant::variant_t& out) {
    if (type != T::id) return false;
    out = j.get<T>();
    return true;
}
inline void from_json(const json_t& j, MemSpecVariant& m) {
    std::string type = j.at("memoryType").get<std::string>();
    MemSpecVariant::variant_t v;
    if (!(tryParse<MemSpecDDR4>(j, type, v) || tryParse<MemSpecDDR5>(j, type, v) || tryParse<MemSpecLPDDR4>(j, type, v)
          || tryParse<MemSpecLPDDR5>(j, type, v) || tryParse<MemSpecLPDDR6>(j, type, v)))
        throw std::runtime_error("unknown memoryType");
    m.setVariant(v);
}
inline void to_json(json_t& j, const MemSpecVariant& m) {
    std::visit([&](auto&& x) { j = x; j["memoryType"] = std::decay_t<decltype(x)>::id; }, m.getVariant());
}
}
namespace DRAMUtils {
inline std::optional<MemSpec::MemSpecVariant> parse_memspec_from_file(const std::filesystem::path& p) {
    std::ifstream f(p);
    if (!f.is_open()) return std::nullopt;
    json_t j = json_t::parse(f, nullptr, false, true);
    if (j.is_discarded() || !j.contains("memspec")) return std::nullopt;
    return j.at("memspec").get<MemSpec::MemSpecVariant>();
}
}
#endif
