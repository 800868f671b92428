UT = D + "util/"
prop("U01", "Bit containers and burst storage behave like plain sequences of bits",
 "Growing and fixed-width bit containers, of any size and after any sequence of operations, hold, count, compare and combine exactly the bits put into them, and the counting helpers (ones, changes, rises, falls) agree with a bit-by-bit count. Burst storage splits a payload of any length over a bus of any width beat by beat, keeps order, value and end time, and survives saving and restoring.",
 ["inputs", "histories"], "all operation sequences, container sizes (aligned to the block size or not), values and widths",
 "Tests use a handful of sizes, mostly multiples of the block size, and never compare after complementing.",
 [UT + "dynamic_bitset.h", UT + "sub_bitset.h", UT + "binary_ops.h", UT + "burst_storage.h"], [("bit storage in blocks with unused high bits", "util/dynamic_bitset.h, util/sub_bitset.h"), ("splitting a payload into beats", "util/burst_storage.h BurstStorageInsertHelper")], ["dynamic_bitset", "sub_bitset", "burst_storage"])
prop("U02", "Interval counters and clocks count exactly the elapsed intervals",
 "Whatever the order of opening, closing, resetting, adding, copying, saving and restoring, an interval counter reports the sum of the closed intervals plus the part of an open one up to the query time, and a clock line reports its half-periods only for the time it ran. Activity records add, scale and report differences field by field, and pending statistics are handed over once.",
 ["histories", "inputs"], "all operation sequences and times up to 2^40 cycles, all data rates",
 "Tests open and close an interval once or twice at small times.",
 [UT + "cycle_stats.h", UT + "clock.h", UT + "bus_types.h", UT + "pending_stats.h"], [("open/closed interval bookkeeping", "util/cycle_stats.h interval_counter"), ("clock start/stop", "util/clock.h")], ["interval_counter::get_count_at", "Clock::get_stats_at"])
prop("U03", "Extensions dispatch to every registered hook exactly once and only there",
 "A device's extension managers create, find and call exactly the registered extensions, in registration order, for exactly the hooks each one supports, whatever number of hooks an interface defines. An extension that is registered again replaces the previous one of its type. Looking up an unregistered extension finds nothing and calls nothing.",
 ["configurations", "histories"], "all sets of extensions and hooks (up to 64 hooks), all call sequences",
 "Tests register one or two extensions with the first few hooks.",
 [UT + "extension_manager.h", UT + "extension_manager_static.h"], [("hook masks per extension", "util/extension_manager_static.h"), ("lookup by type", "util/extension_manager.h")], ["extension_manager_static::callHook", "extension_manager::withExtension"])
prop("U04", "Command words are built bit by bit from the pattern and the override settings",
 "For every command pattern, address, previous word and override configuration, the encoded word has each fixed bit as written, each address bit from the addressed coordinate, and each don't-care bit as the configuration says (low, high or last value). The pattern handler encodes against the previously encoded word also across saving and restoring, and the router calls exactly the handler registered for a command.",
 ["inputs", "configurations", "histories"], "all patterns up to 64 slots, all coordinates, all override and initial-word settings, all command orders",
 "Tests encode a few fixed patterns.",
 [D + "command/Pattern.h", D + "command/Pattern.cpp", UT + "PatternHandler.h", UT + "Router.h"], [("slot by slot encoding", "command/Pattern.cpp DefaultEncoder::encode"), ("last word", "util/PatternHandler.h")], ["PatternEncoder::encode", "PatternHandler::getCoordinatePattern"])
prop("U05", "Switching between payload and toggling-rate mode loses and invents no activity",
 "A data bus that is switched between replaying payloads and toggling-rate estimation at arbitrary times counts every burst in the mode active when it was transferred, up to the switch, with idle levels in between and nothing for a mode that is off. Bus widths up to thousands of lines, rate changes, idle patterns, queries in the future and save/restore do not change this.",
 ["histories", "configurations"], "all sequences of bursts, switches, rate changes, save/restore and queries, widths 1 to 4096",
 "Tests never switch modes more than once and query after the end of all bursts.",
 [UT + "bus.h", UT + "databus.h"], [("enable/disable of bus and toggling line", "util/bus.h, util/databus.h")], ["Bus::get_stats", "TogglingHandle::get_stats", "DataBus::get_stats"])
prop("M01", "The memory specification is read completely and nothing else matters",
 "Leaving out an optional parameter is the same as stating its documented default, an unsupported refresh mode or bank architecture falls back to the documented one, and a parameter of another refresh mode, a name or a size has no influence on any result. Supply currents influence only core energy and line impedances only interface energy, and the parsed specification and reported architecture hold each value of the document under its own name.",
 ["configurations", "histories"], "all specifications of the five standards with any subset of optional parameters, on random legal histories",
 "Tests load one complete specification per standard.",
 [D + "memspec/MemSpec%s.cpp" % U[s] for s in STD], [("parsing and defaults", "memspec/MemSpec*.cpp")], ["MemSpec*::from_memspec", "dram_base::getCLIArchitectureConfig"])
prop("T01", "Command names and command records mean what they say",
 "Every command has exactly one name, printing a command and reading the name back yields the same command, and any other text (apart from the documented END) is read as no operation. Exactly reads and writes, with or without automatic precharge, carry data, and a command record holds the time, type, coordinate and payload it was built from.",
 ["inputs"], "all commands, all texts, all coordinates and times",
 "Tests check the listed names one by one and no text that is merely similar to one.",
 [D + "command/CmdType.h", D + "command/Command.h", D + "command/Command.cpp"], [("name tables", "command/CmdType.h CmdTypeUtil::from_string, to_string, needs_data"), ("constructors", "command/Command.cpp")], ["CmdTypeUtil::from_string", "CmdTypeUtil::to_string"])
prop("U06", "Deferred commands run once, in time order, and only when due",
 "Whatever the order in which deferred (implicit) commands are added, processing up to a time runs exactly those due at or before it, in order of their times and first-added-first for equal times, each once, and reports the time of the last one run. A copied queue continues on its own.",
 ["histories", "schedules"], "all sequences of additions, partial executions, copies and assignments",
 "Tests reach the queue only through a few device histories with one or two pending entries.",
 [UT + "ImplicitCommandHandler.h"], [("sorted queue", "util/ImplicitCommandHandler.h addImplicitCommand, processImplicitCommandQueue")], ["ImplicitCommandHandler::processImplicitCommandQueue"])
prop("U07", "The inversion engine and single pins replay every beat exactly",
 "For every data word size, chunk size, bus width, idle level and inversion rule, and every sequence of reads and writes back to back or apart, the inversion engine inverts exactly the chunks the rule demands given the previously sent beat, reports each chunk once at its beat time, and returns inverted lines to idle once after the end of a burst. A pin's ones, zeroes and changes equal a slot-by-slot replay, and both continue unchanged after saving and restoring.",
 ["inputs", "histories", "configurations"], "all payloads, widths, word sizes, gaps between bursts, rules, resets, enable/disable and save/restore points",
 "Tests run a few bursts of one word size without restoring, single-beat bursts or several words per chunk.",
 [UT + "dbi.h", UT + "dbialgos.h", UT + "dbihelpers.h", UT + "pin.h", UT + "pending_stats.h"], [("inversion and callbacks", "util/dbi.h updateDBI, dispatchResetCallback"), ("inversion rules", "util/dbialgos.h"), ("pin statistics", "util/pin.h")], ["DBI::updateDBI", "DBI change callback", "Pin::get_stats_at"])
CL = "src/cli/lib/DRAMPower/cli/"
prop("L01", "A command trace is read exactly as written or refused",
 "Every row of a trace becomes one command with the time, command, address and payload bytes written in it, in order, whatever the spelling of hexadecimal payloads, blanks around fields or line endings. A trace with a malformed row (missing columns, a column that is no number, a missing or malformed payload) is refused as a whole, without an exception.",
 ["inputs"], "all traces of any length, all commands, addresses, times and payloads, all single-row corruptions",
 "Tests read five example traces and no malformed payload.",
 [CL + "run.cpp", CL + "util.cpp"], [("row parsing", "cli/run.cpp parse_command_list"), ("payload parsing", "cli/util.cpp hexStringToUint8Array")], ["parse_command_list", "hexStringToUint8Array"])
prop("L02", "The command line tool reports what the library computes",
 "For every specification file, configuration and trace, the energies the tool writes as JSON or prints are exactly those the library computes for that specification, configuration and command sequence at the time of the last command. Every bank entry is labelled with its rank, device and bank, every component appears under its name, and the total is the sum of core and interface energy.",
 ["inputs", "configurations", "histories"], "all specifications of the five standards, toggling configurations and legal traces, both output forms",
 "Tests run the tool's functions on one example per standard with one rank and one device.",
 [CL + "run.cpp", CL + "util.hpp", CL + "config.h", "src/cli/main/main.cpp"], [("results", "cli/run.cpp makeResult, jsonFileResult, stdoutResult"), ("specification and configuration", "cli/run.cpp getMemory, getConfig")], ["output JSON file", "standard output", "exit status"])
prop("L03", "The command line tool writes only the named file and refuses broken inputs",
 "The result goes to exactly the file that the output path denotes, through relative, absolute, chained and dangling links, replacing old content, and no other file is created or changed; a path that cannot be written, or a result that does not fit on the device, ends the tool with a non-zero status. Any missing, unreadable or malformed configuration, specification or trace ends the tool with a message and a non-zero status, and never with an uncaught exception or a result file.",
 ["inputs", "configurations"], "all directory trees with files, directories and links, all spellings of the output path, all sizes the device has room for, all missing or malformed inputs",
 "The output path handling and the tool's error exits are not tested at all.",
 ["src/cli/main/main.cpp", "src/cli/main/validators.cpp", CL + "run.cpp"], [("output path resolution", "main/validators.cpp EnsureFileExists, resolve_symlink, createFileInParentDirectory"), ("error exits", "main/main.cpp main, parseArgs")], ["file system", "exit status"])
prop("L04", "Commands that do not fit the memory are refused, also in release builds",
 "A command that names a rank or bank the memory does not have, or an LPDDR6 transfer whose payload is neither one nor two bursts, is refused with an exception in every kind of build, and never reads or changes memory it should not. A command refused for its coordinates leaves all results as if it had never been given, and the command line tool ends with a message and a non-zero status on a trace that contains one.",
 ["inputs", "histories"], "all commands with coordinates beyond the memory (just beyond, far beyond) or malformed payloads, after all legal histories",
 "The bounds are assertions, so a release build, which no test uses, accepts such commands and runs on.",
 [UT + "RegisterHelper.h", D + "standards/lpddr6/LPDDR6Interface.cpp", D + "standards/lpddr6/LPDDR6Core.cpp", "src/cli/main/main.cpp"], [("coordinate checks", "util/RegisterHelper.h coreHelpers"), ("burst size", "standards/lpddr6/LPDDR6Interface.cpp DataFormatter::formatData")], ["exception", "SimulationStats", "exit status"])
prop("R01", "Legal use never triggers undefined behaviour",
 "No legal sequence of commands, extension switches, queries, checkpoints, copies and conversions to JSON on any device of any standard reads or writes outside an object, overflows, violates an internal assertion, throws or crashes. Every reported number is finite, no count wraps around below zero, and every result can be shown. Reading a checkpoint that was cut short ends, and leaves the stream in a failed state.",
 ["histories", "configurations"], "all legal lives of a device of any specification, up to about a thousand commands, up to 8 ranks and 8 devices",
 "Tests run without sanitizers on short sequences of one feature at a time.",
 [D + "standards", D + "util", D + "data"], [("bit and burst storage", "util/burst_storage.h, util/dynamic_bitset.h"), ("deferred commands", "util/ImplicitCommandHandler.h"), ("buses and pins", "util/bus.h, util/pin.h")], ["sanitizer reports", "getWindowStats", "calcCoreEnergy", "calcInterfaceEnergy", "to_json"])
prop("R02", "A result depends only on what was done to the device",
 "Several devices, of equal or different specifications, used in any interleaving or in parallel threads (one thread per device at a time), repeatedly and after one another, each give exactly the answers they give when used alone. No answer depends on the content of fresh memory, on earlier devices or on the process.",
 ["schedules", "histories"], "all interleavings of the lives of up to four devices, all assignments to threads, all contents of fresh memory",
 "Tests use one device per process and thread and never repeat a run.",
 [D + "standards", D + "util", D + "command/Pattern.h", D + "memspec"], [("state kept per device", "standards/*/*.h members"), ("command word encoding", "command/Pattern.h, util/PatternHandler.h"), ("initialisation of records", "data/stats.h, util/bus_types.h")], ["getWindowStats", "calcCoreEnergy", "calcInterfaceEnergy", "thread sanitizer reports"])
prop("S05", "Repeating a workload multiplies every result and costs no more memory",
 "A workload that leaves the device idle, repeated at a fixed period, makes every count, residency, bus statistic and energy exactly the multiple of one repetition, for any number of repetitions and any length, also across a checkpoint (toggling rates: the rounded value of the summed beats). The device does not hold more memory the longer it is used.",
 ["histories", "configurations"], "all legal workloads that end idle, up to some thousand commands, repeated up to several hundred thousand commands and 2^40 cycles",
 "Tests give a device a dozen commands; nothing runs long enough for a counter, a queue or a time to outgrow its type.",
 DEV + CORE + IFC + [D + "dram", D + "data/stats.h", D + "util/ImplicitCommandHandler.h", D + "util/bus.h", D + "util/clock.h"], [("counters and cycle statistics", "dram/Bank.h, dram/Rank.h, data/stats.h"), ("deferred commands", "util/ImplicitCommandHandler.h"), ("bus and clock statistics", "util/bus.h, util/clock.h, util/pin.h")], OBS + ["heap in use"])
