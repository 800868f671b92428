#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one table (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "src/DRAMPower/DRAMPower/"
STD = ["ddr4", "ddr5", "lpddr4", "lpddr5", "lpddr6"]
U = {"ddr4": "DDR4", "ddr5": "DDR5", "lpddr4": "LPDDR4", "lpddr5": "LPDDR5", "lpddr6": "LPDDR6"}
def per(suffix): return [D + "standards/%s/%s%s" % (s, U[s], suffix) for s in STD]
def calc(kind): return [D + "standards/%s/%s_calculation_%s.cpp" % (s, kind, U[s]) for s in STD]
CORE, IFC, DEV = per("Core.cpp"), per("Interface.cpp"), per(".cpp")
P = []
def prop(id, title, st, over, q, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})
OBS = ["dram_base::getWindowStats", "dram_base::getStats"]
STATS_ST = [("Bank/Rank counters and interval counters", "event counts and residencies accumulated so far", D + "dram/Bank.h, " + D + "dram/Rank.h, " + D + "util/cycle_stats.h")]
FIXED = "The existing tests replay a few dozen hand-written command lists on one memory specification per standard and compare a few numbers at the end"

prop("C01", "State residencies equal the time actually spent in each state",
 "For every supported DRAM standard and every legal command history, the number of cycles a bank or rank is reported to have spent active, precharged, in active or precharged power-down, in self-refresh or in deep sleep equals the time the commands and the device timing put it there, at any query time. Automatic precharges, refreshes that close themselves and delayed power-down entry and exit take effect at their device-timed moment, not at the moment they were commanded.",
 ["histories", "configurations", "inputs"], "all legal command histories, all query times at or after the last command, all specifications of the five standards (ranks, banks, bank groups, timing values)",
 FIXED + "; overlaps of auto-precharge, refresh completion and low-power entry with arbitrary timing values are not reached.",
 CORE + [D + "dram/Rank.cpp", D + "dram/Bank.h", D + "util/ImplicitCommandHandler.h", D + "util/cycle_stats.h"],
 [("command handlers per standard", "standards/*/*Core.cpp handleAct, handlePre, handleRefAll, handlePowerDown*, handleSelfRefresh*"), ("deferred implicit commands", "util/ImplicitCommandHandler.h"), ("statistics at a time", "standards/*/*Core.cpp getWindowStats")], OBS, STATS_ST)
prop("C02", "Every cycle of a bank and of a rank is in exactly one state",
 "At every query time the residencies of each bank (active, precharged, power-down, self-refresh, deep sleep) add up to the elapsed time, and so do those of each rank, so that no cycle is lost or counted twice. This holds for every specification and every legal command history.",
 ["histories", "configurations"], "all legal histories, all query times, all specifications of the five standards",
 FIXED + "; they never sum the states, so a cycle counted twice in a rarely visited state passes.",
 CORE + [D + "dram/Rank.cpp", D + "util/cycle_stats.h"], [("interval counters opened and closed in pairs", "standards/*/*Core.cpp, dram/Rank.cpp")], OBS, STATS_ST)
prop("C03", "Command counters count every command once, on the right bank",
 "After any legal history every bank reports exactly the activations, precharges, reads, writes, auto-precharge accesses and refreshes that affected it, including the precharges implied by auto-precharge and refresh commands that have taken effect by the query time. All-bank, same-bank and per-bank commands count on precisely the banks they address, and no other bank or rank changes.",
 ["histories", "configurations"], "all legal histories with arbitrary rank, bank group and bank addresses; all specifications",
 FIXED + "; mostly one rank, few banks and no pending automatic precharge at the query.",
 CORE + [D + "dram/Bank.h", D + "data/stats.h"], [("counter updates in the command handlers", "standards/*/*Core.cpp")], OBS, STATS_ST)
prop("C05", "Core energy equals the datasheet current model",
 "For every specification and every combination of counters and residencies, each reported core energy component (activation, precharge, read, write, refresh kinds, background, power-down, self-refresh) of each bank and rank equals the current-times-voltage-times-time evaluation documented for that standard, summed over the voltage domains and multiplied by the number of devices. Bank-wise power parameters shift background energy between shared and per-bank shares only.",
 ["inputs", "configurations"], "all specifications (currents, voltages, timing, architecture, bank-wise factors) and all statistics records, and the statistics of legal histories",
 "Each standard is tested with a single current/voltage set, in which many parameters are equal or zero, so a swapped parameter or a missing factor is invisible.",
 calc("core") + [D + "memspec/MemSpec%s.cpp" % U[s] for s in STD] + [D + "data/energy.h"], [("energy formulas", "standards/*/core_calculation_*.cpp calcCoreEnergy"), ("derived power parameters", "memspec/MemSpec*.cpp parseImpedanceSpec/parseBankWiseSpec/memPowerSpec")], ["dram_base::calcCoreEnergy", "dram_base::calcCoreEnergyStats"])
prop("C06", "Energy totals are the sum of their parts",
 "The total of an energy record is the sum of all its bank, shared, power-down, self-refresh, deep-sleep and refresh components, the aggregated record sums the same component over all banks, adding records adds every component, and the JSON form carries every component under its own name. No component is lost, duplicated or negative for legal statistics.",
 ["inputs", "histories"], "all energy records and the energy of all legal histories",
 "Tests compare total energy for a few histories in which most components are zero, so a component left out of a sum goes unnoticed.",
 [D + "data/energy.h", D + "data/energy.cpp"], [("total, aggregated, operator+=, to_json", "data/energy.cpp")], ["energy_t::total", "energy_t::aggregated_bank_energy", "energy_info_t::to_json"])
prop("C07", "Queries do not disturb the simulation and numbers never run backwards",
 "Asking for statistics or energy at any time changes nothing that a later query reports: a device queried arbitrarily often ends with exactly the statistics and energy of one never queried, and repeating a query repeats its answer. Every reported count, residency and energy is non-decreasing in the query time.",
 ["histories", "schedules"], "all legal histories with arbitrary queries (statistics, window statistics, energies) interleaved",
 "The tests query once, after the last command.",
 DEV + CORE + IFC + [D + "util/ImplicitCommandHandler.h", D + "util/pin.h", D + "util/bus.h"], [("statistics computed on copies or by replaying pending implicit commands", "standards/*/*Core.cpp, standards/*/*Interface.cpp getWindowStats")], OBS + ["dram_base::getTotalEnergy"])
prop("C08", "Results follow renamed banks, shifted time and scaled configurations",
 "Relabelling ranks or equivalent banks permutes the results and changes nothing else, a rank left out of the history does not influence the others, shifting a history in time adds only idle time, and multiplying the number of devices, a supply voltage or the clock period scales the affected results by exactly the corresponding factor.",
 ["histories", "configurations"], "all legal histories and specifications, related by a random permutation, shift, projection or scaling",
 "Two related runs are never compared by the tests.",
 CORE + IFC + calc("core") + calc("interface"), [("per-rank and per-bank bookkeeping", "dram/Rank.h, standards/*/*Core.cpp"), ("device and voltage factors", "standards/*/*_calculation_*.cpp")], OBS + ["dram_base::calcCoreEnergy", "dram_base::calcInterfaceEnergy"])
prop("I01", "Data bus activity equals a bit-by-bit replay of the transferred data",
 "For every sequence of reads and writes with payload, the reported ones, zeroes and transitions of each direction of the data bus at any time, also inside a burst, equal those of replaying every line slot by slot, with the idle level between bursts and the last level of one burst against the first of the next. This holds for every bus width, data rate, burst length and number of devices.",
 ["inputs", "histories", "configurations"], "all payloads, gaps, query times, widths (1 to 80 devices), burst lengths and data rates of the five standards",
 FIXED + "; few payload patterns, fixed width, queries after the end.",
 IFC + [D + "util/bus.h", D + "util/databus.h", D + "util/burst_storage.h", D + "util/pending_stats.h", D + "util/binary_ops.h"], [("burst storage and pending statistics", "util/bus.h load/get_stats, util/burst_storage.h"), ("width selection", "util/databus_presets.h")], OBS)
prop("I02", "Command bus activity equals the truth-table encoding of every command",
 "Each command drives the bit pattern that the standard's truth table prescribes for its opcode, coordinates and parity, and the reported ones, zeroes and transitions of the command bus equal a replay of those patterns with the idle level in between. Every command the standard defines is encoded for every address that fits the device.",
 ["inputs", "histories", "configurations"], "all commands, all rank, bank group, bank, row and column values, all spacings, all five standards, parity on and off",
 "Tests check a handful of patterns per standard with small coordinates; high address bits and rarely used commands are never driven.",
 IFC + [D + "command/Pattern.cpp", D + "command/Pattern.h", D + "util/PatternHandler.h", D + "standards/lpddr6/LPDDR6Pattern.cpp", D + "util/bus.h"], [("pattern registration", "standards/*/*Interface.cpp registerPatterns"), ("pattern encoding", "command/Pattern.cpp PatternEncoder::encode")], OBS)
prop("I03", "Clock and strobe activity follows the clock and the transfers",
 "The command clock toggles every cycle outside the states that stop it, the write clock and the data strobes toggle at their documented rate exactly while a transfer occupies the data bus, and both lines of a differential pair are accounted for. Strobe activity counts real and estimated transfers alike and depends on nothing but the union of the burst intervals.",
 ["histories", "configurations"], "all legal histories, with and without payload, all query times after the bursts, all specifications",
 FIXED + "; seamless, gapped and mixed payload/no-payload transfers are not combined.",
 IFC + [D + "util/clock.h"], [("clock model", "util/clock.h"), ("strobe start/stop", "standards/*/*Interface.cpp handleDQs")], OBS)
prop("I04", "Without payload, data activity is the configured toggling rate",
 "When the device is configured with toggling rates, the estimated ones, zeroes and transitions of each data direction equal rate, duty cycle and idle level applied to the slots the transfers occupy and to the idle slots, for any configuration and any history. Real data activity stays zero, and switching the rates leaves what was already accumulated intact.",
 ["histories", "configurations", "inputs"], "all rates, duty cycles and idle patterns, all legal histories with or without payload, all specifications",
 "Tests use one rate of 0.5 per standard and one history.",
 [D + "dram/Interface.cpp", D + "dram/Interface.h", D + "util/databus.h"] + IFC, [("toggling handle", "dram/Interface.cpp TogglingHandle"), ("mode of the data bus", "util/databus.h")], OBS)
prop("I05", "Data bus inversion follows the per-byte rule and never costs more",
 "With data bus inversion enabled on a device that has inversion lines, each byte is inverted exactly if that gives fewer costly bits under the standard's rule, the flag is shown on the inversion line, and all lines return to idle after the transfer. The data lines never cost more than without inversion, devices without inversion lines refuse it, and switching it on or off affects later transfers only.",
 ["inputs", "histories", "configurations"], "all payloads, gaps and moments of switching inversion on and off, device counts 1 to 80, DDR4, LPDDR4, LPDDR5 (and refusal by others)",
 "Tests cover single transfers with hand-picked bytes; back-to-back bursts, wide buses and switching are not combined.",
 [D + "util/dbi.h", D + "util/dbialgos.h", D + "util/dbihelpers.h", D + "util/pin.h", D + "util/extensions.h", D + "util/extensions.cpp"] + IFC, [("inversion decision", "util/dbialgos.h"), ("chunk bookkeeping and pins", "util/dbi.h, standards/*/*Interface.cpp handleDBI*")], OBS)
prop("I06", "DDR4 pre- and postamble energy counts each non-seamless transfer once",
 "The number of seamless reads and writes of each rank equals the number of transfers that start exactly when the previous one of the same direction and rank ends, and the interface energy contains one pre- and postamble for every other transfer. This holds for every preamble length, history and number of ranks.",
 ["histories", "configurations"], "all DDR4 histories (interleaved ranks and directions, gaps of any size), all preamble settings",
 "Tests contain two histories with one rank and do not compare the energy contribution.",
 [D + "standards/ddr4/DDR4Interface.cpp", D + "standards/ddr4/interface_calculation_DDR4.cpp", D + "data/stats.h"], [("seamless detection", "standards/ddr4/DDR4Interface.cpp handlePrePostamble"), ("energy", "standards/ddr4/interface_calculation_DDR4.cpp")], OBS + ["dram_base::calcInterfaceEnergy"])
prop("I07", "Interface energy is line activity times the electrical parameters",
 "For each signal group the static energy equals the time at the costly level times voltage squared over the termination resistance, the dynamic energy equals the number of rising edges times the switching energy, attributed to controller or device by the direction of the signal. Disabled termination removes only the static part, and estimated activity is charged exactly like real activity.",
 ["inputs", "configurations", "histories"], "all activity records, all electrical parameters and termination switches, and the activity of all legal histories",
 "Tests use one parameter set per standard, with equal resistances, and compare totals.",
 calc("interface") + [D + "data/energy.h"], [("interface energy", "standards/*/interface_calculation_*.cpp")], ["dram_base::calcInterfaceEnergy", "dram_base::calcInterfaceEnergyStats"])
prop("I08", "LPDDR6 bursts carry data, metadata and inversion flags in their own cells",
 "Each LPDDR6 burst places every payload bit, metadata bit and inversion flag in the cell the burst format assigns to it and nowhere else, so the activity of the data lines equals a cell-by-cell layout. This holds for single and double bursts, with metadata and inversion in any combination.",
 ["inputs", "configurations", "histories"], "all payloads and metadata words, inversion on and off, one or two devices, single and double bursts",
 "Tests check a few constant payloads.",
 [D + "standards/lpddr6/LPDDR6Interface.cpp", D + "standards/lpddr6/LPDDR6Interface.h", D + "util/dbi.h", D + "util/extensions.h"], [("burst formatting", "standards/lpddr6/LPDDR6Interface.cpp")], OBS)
prop("S01", "A restored checkpoint continues exactly like the original",
 "Whenever the device accepts a checkpoint, writing it and reading it into any device of the same specification, fresh or used and with deferred events of its own or without, yields a device that reports the same statistics and energies and keeps doing so under every continuation of the history. This includes open banks, low-power states, transfers in flight and enabled extensions.",
 ["crash_points", "histories", "configurations"], "all legal histories, all moments at which a checkpoint is accepted, all continuations, all specifications",
 "Tests save and restore once per standard after a short history into a fresh device.",
 DEV + CORE + IFC + [D + "util/Serialize.h", D + "util/Deserialize.h", D + "util/extension_manager.h", D + "util/pin.h", D + "util/bus.h", D + "util/dbi.h", D + "dram/Rank.cpp"], [("serialize/deserialize of every component", "util/*.h, standards/*/*.cpp")], OBS + ["dram_base::serialize", "dram_base::deserialize"])
prop("S02", "Core and interface can be driven separately with the same result",
 "Feeding a command as a whole, or its core and interface halves separately with either half lagging behind, gives exactly the same core and interface statistics and energies. A half never reads or changes the state of the other.",
 ["schedules", "histories"], "all legal histories and all interleavings of the core and interface halves that keep each half in order",
 "Tests use one way to feed each standard.",
 [D + "dram/dram_base.h"] + DEV + CORE + IFC, [("doCommand, doCoreCommand, doInterfaceCommand", "dram/dram_base.h, standards/*/*.cpp")], OBS)
prop("S03", "Statistics records compare, add, store and print every field",
 "Two statistics records are equal exactly if all their fields are equal, adding records adds every field, writing and reading back restores every field, and the JSON form shows every field under a distinct name with its value.",
 ["inputs", "histories"], "all statistics records, including ones that differ in a single bit of a single field, and statistics of legal histories",
 "Tests compare records in which most fields are zero.",
 [D + "data/stats.h", D + "util/bus_types.h"], [("operators and conversions", "data/stats.h, util/bus_types.h")])
prop("S04", "A copied or moved device is an independent, equal device",
 "Copying or moving a device, by construction or assignment, onto fresh or used devices, yields a device that reports and continues exactly like the original, and afterwards commands to one never influence the other. Destroying the source leaves the copy intact.",
 ["histories", "configurations"], "all legal histories with copies and moves at arbitrary points, all specifications",
 "Copies of devices are not tested; some assignments did not even compile.",
 DEV + CORE + IFC + [D + "util/pin.h", D + "util/ImplicitCommandHandler.h", D + "util/PatternHandler.h"], [("special member functions", "standards/*/*.h")])
exec(open(os.path.join(V, "tools", "meta_more.py")).read())

TECH = json.load(open(os.path.join(V, "tools", "technique.json")))
checks = json.load(open(os.path.join(V, "checks.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]): f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py --build-all", "checks": [], "not_applicable": [], "notes": "One binary per property, built by run.py from /repo's working tree; see DESIGN.md."}
for p in sorted(P, key=lambda p: p["id"]):
    i = p["id"]
    if i not in checks: print("no check:", i); continue
    m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": TECH[i], "level": "exploration", "level_note": "generated-input search with a fixed seed; shows violations, never their absence"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    jsonschema.validate(p, ps)
    assert p["statement"].count(". ") <= 2, p["id"]
    for f in p["anchors"]["files"]: assert os.path.exists(os.path.join("/repo", f)), f
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
assert set(checks) <= {p["id"] for p in P}, set(checks) - {p["id"] for p in P}
print(len(P), "properties", len(m["checks"]), "checks")
