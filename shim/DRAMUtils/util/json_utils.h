#ifndef VERIF_SHIM_DRAMUTILS_UTIL_JSON_UTILS_H
#define VERIF_SHIM_DRAMUTILS_UTIL_JSON_UTILS_H
#include <cstdint>
#include <optional>
#include <string>
#include <variant>
#include <DRAMUtils/util/json.h>
namespace DRAMUtils::util {
template <typename T> struct is_opt : std::false_type {};
template <typename T> struct is_opt<std::optional<T>> : std::true_type {};
template <typename T> void put(json_t& j, const char* key, const T& v) {
    if constexpr (is_opt<T>::value) { if (v) j[key] = *v; }
    else j[key] = v;
}
template <typename T> void fetch(const json_t& j, const char* key, T& v) {
    if constexpr (is_opt<T>::value) {
        auto it = j.find(key);
        if (it == j.end() || it->is_null()) v = std::nullopt;
        else v = it->template get<typename T::value_type>();
    } else j.at(key).get_to(v);
}
}
#define VSHIM_TO(v1) ::DRAMUtils::util::put(nlohmann_json_j, #v1, nlohmann_json_t.v1);
#define VSHIM_FROM(v1) ::DRAMUtils::util::fetch(nlohmann_json_j, #v1, nlohmann_json_t.v1);
#define NLOHMANN_JSONIFY_ALL_THINGS(Type, ...) \
    inline void to_json(nlohmann::json& nlohmann_json_j, const Type& nlohmann_json_t) { \
        NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(VSHIM_TO, __VA_ARGS__)) } \
    inline void from_json(const nlohmann::json& nlohmann_json_j, Type& nlohmann_json_t) { \
        NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(VSHIM_FROM, __VA_ARGS__)) }
#endif
