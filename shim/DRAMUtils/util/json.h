// Stand-in for the parts of DRAMUtils v1.14.0 that DRAMPower uses (the real
// library cannot be fetched in the sandbox). Written from the uses in DRAMPower.
#ifndef VERIF_SHIM_DRAMUTILS_UTIL_JSON_H
#define VERIF_SHIM_DRAMUTILS_UTIL_JSON_H
#include <nlohmann/json.hpp>
using json_t = nlohmann::json;
#endif
