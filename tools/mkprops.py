"""Writes /verif/properties.jsonl (run from /verif)."""
import json, os
LOGS = "procmon_parser/logs.py"; INIT = "procmon_parser/__init__.py"; FMT = "procmon_parser/stream_logs_format.py"
DET = "procmon_parser/stream_logs_detail_format.py"; CONST = "procmon_parser/consts.py"; HLP = "procmon_parser/stream_helper.py"
CFG = "procmon_parser/configuration.py"; CFMT = "procmon_parser/configuration_format.py"; CH = "procmon_parser/construct_helper.py"
DOC = "docs/PML Format.md"; CDOC = "docs/PMC Format.md"

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "observe_at": observe or [], "hook_needed": None}})

TESTS = "The existing log tests read five fixed captures once, front to back, and compare them with CSV exports; "

prop("P01", "Every captured event is delivered, exactly once and in order",
 "For every well-formed log, the reported length equals the number of captured events, iterating yields every event exactly once in log order and then stops, and reading all events from a path or from an open stream yields that same complete list. Every integer index (negative ones included) and every slice selects exactly what a Python list of the events would; an out-of-range index raises IndexError and a non-integer one TypeError. Indexing never advances or disturbs an iteration in progress, and an exhausted iteration stays exhausted.",
 ["inputs", "histories"], "all well-formed logs of any number of events (0, 1, more than 65,536), all interleavings of next(), len(), indexing and slicing",
 TESTS + "they never index, slice, read from a path, or see an empty or a very large log.",
 [INIT, LOGS, FMT], [("ProcmonLogsReader.__next__/__getitem__/__len__", INIT), ("read_all_events_from_pml", INIT), ("PMLStructReader.__getitem__", LOGS), ("EventOffsetsArray", FMT)],
 ["ProcmonLogsReader", "read_all_events_from_pml"], [("_current_event_index", "next event to deliver", INIT)])

prop("P02", "What is read depends only on the log's bytes, never on history",
 "The events, process list and system details a reader returns depend only on the bytes of the log: not on which events were read before, in what order, how often, or whether an earlier read failed, not on other readers of the same stream or on a caller moving the stream's position between calls. Changing an event, its details or stack, or the returned process list, never changes another event or what is returned later; changing a process or one of its modules changes no other process and no other module. Several readers in one process, with different logs, bitness or options, never influence each other.",
 ["histories", "inputs"], "all access histories over one or more readers, including failed reads, shared streams and caller mutation of returned events",
 TESTS + "no test reads an event twice, out of order, after a failure, or with two readers alive.",
 [FMT, DET, LOGS, INIT], [("PMLStreamReader.get_event_at_offset", FMT), ("read_event", FMT), ("get_event_details", DET)], ["ProcmonLogsReader.__getitem__", "processes()", "system_details()"])

prop("P03", "An event's common columns are exactly what the log records",
 "For every event of a 32- or 64-bit log, the process, thread id, event class, base operation, duration, capture time, result code and stack trace (all frames, in order, at pointer width) equal the values recorded for that event, over their full numeric range. The process is the table entry with the event's process index, whatever the order or gaps of the indexes. An event of an operation whose details are not supported is still delivered with these columns.",
 ["inputs"], "all values of every common field, every operation of every class, both bitnesses, stack depths 0..65535",
 TESTS + "field extremes, large stacks, sparse process indexes and most operations never occur in them.",
 [FMT, LOGS, CONST, DOC], [("CommonEventStruct / read_event", FMT), ("EventClass, EventClassOperation", CONST)], ["Event attributes"])

prop("P04", "The process and module table is reported completely and exactly",
 "For every log, the process list contains one entry per captured process, in table order, and every attribute (ids, session, 64-bit authentication id, start and end time, virtualization, bitness, and each of the eight texts) equals what the log records, including texts shared between, empty for, or repeated across processes. Each process lists all its modules in order with exact base address, size, timestamp, path, version, company and description. Events refer to these same process records.",
 ["inputs"], "all process tables: any number of processes and modules, any string sharing, both bitnesses, any process indexes",
 TESTS + "the only process assertions are one count and four attributes of one process; modules are never checked.",
 [FMT, LOGS, DOC], [("ProcessTable / __read_process / __read_module", FMT), ("StringsTable", FMT)], ["ProcmonLogsReader.processes()", "Event.process"])

prop("P05", "System details state the captured machine's facts",
 "For every log header, the system details give the captured computer name, system root, number of logical processors and system bitness, and name the Windows version (Vista to 10) with its service pack, if any, and its build numbers. The memory is the recorded byte count in GB, cut (not rounded) to two decimals. Names that fill their whole field are complete, and nothing after a terminating NUL is shown.",
 ["inputs"], "all header field values: names up to the full field, all supported OS versions, RAM 0..2^64-1",
 "Two fixed machines are checked; both have the same RAM text and short names.",
 [FMT, LOGS, DOC], [("Header", FMT), ("system_details/_get_os_name", LOGS)], ["ProcmonLogsReader.system_details()"])

prop("P06", "The physical arrangement of a log's sections does not matter",
 "Two logs that record the same facts read the same whatever the order of the sections in the file the offset pointers allow, whatever gaps, padding and unknown or reserved fields contain, in whatever physical order strings, processes and events are stored, wherever an event's extra details lie after it, shared or not, and even beyond 4 GiB. Only the pointers, indexes and lengths recorded in the log decide where data is found.",
 ["inputs", "configurations"], "all placements of header-referenced tables, event records and extra-detail blocks, and all values of unknown fields",
 TESTS + "all were written by one Procmon build in one fixed layout.",
 [FMT, DET, DOC], [("PMLStreamReader.__init__", FMT), ("read_event extra_details_offset", FMT), ("StringsTable/ProcessTable offsets", FMT)], ["ProcmonLogsReader over re-laid-out logs"])

prop("P07", "Files that are not clean, supported logs are refused",
 "A stream that lacks the log signature, was not closed cleanly (any of the events, offsets, process, strings or icons pointers is zero), has a wrong header size or no hosts-and-ports pointer is refused on opening with PMLError, and a log of any version other than 9 with NotImplementedError. A log cut anywhere before its hosts and ports tables, the header included, or with an offsets array too short for its events, is refused on opening with an exception; no reader is returned whose tables were filled with guesses. No well-formed log is refused.",
 ["inputs", "crash_points"], "all header corruptions of the named fields, all truncation points before the hosts and ports tables",
 "No existing test opens a bad or truncated log.",
 [FMT, LOGS, INIT], [("Header validation", FMT), ("struct-exact table reads", HLP)], ["ProcmonLogsReader(...)", "read_all_events_from_pml(...)"])

prop("P08", "Damage to one event never spreads and is never silent",
 "If the bytes of one event are damaged (unknown class or operation, unknown process, record cut short, lengths beyond the data), reading any other event, by index, slice or iteration, gives what it gives in the undamaged log. Reading the damaged event either raises or returns an event; an iteration continues with the event after it. An event whose fields or stack trace run beyond the end of the log is never returned. Reading all events of a log in which an event cannot be read raises an exception and never returns a shortened list.",
 ["inputs", "fault_sequences"], "all damage confined to one event's record or extra details, all access orders around it",
 "No existing test reads a damaged event.",
 [INIT, LOGS, FMT, DET], [("__next__ advances before reading", INIT), ("read_all_events_from_pml", INIT), ("absolute seek per event", FMT)], ["ProcmonLogsReader", "read_all_events_from_pml"])

prop("P09", "Hostile or corrupt input costs bounded work and memory",
 "Opening any byte string and reading every event it claims to hold, always finishes: with a result or an exception, in a number of steps and an amount of memory bounded by the size of the input, however large the counts, sizes and offsets it declares. The stream is only read, never written, truncated or closed.",
 ["inputs"], "all byte strings, in particular logs with any field overwritten by extreme, cyclic or overlapping counts, sizes and offsets",
 "No existing test feeds malformed input, so loops and allocations driven by declared sizes are never exercised.",
 [FMT, DET, HLP], [("EventOffsetsArray", FMT), ("read_utf16 / read_utf16_multisz", HLP), ("QueryDirectory entry chain", DET)], ["ProcmonLogsReader over corrupted logs, under a step monitor and a memory limit"])

prop("P10", "The stack and detail options change only what they name",
 "Opening a log without stack traces changes nothing but that every event's stack trace is empty; opening it without details leaves every common column, the stack, the operation name, the path of every event and the process and system data the same as with details. All four combinations of the two options read the same events.",
 ["configurations", "inputs"], "all logs, all four option combinations, all operations",
 "No existing test uses either option.",
 [FMT, DET, INIT], [("should_get_stacktrace branch", FMT), ("should_get_details branches", DET)], ["ProcmonLogsReader(should_get_stacktrace=..., should_get_details=...)"])

prop("P11", "Network events name protocol, endpoints, length and properties",
 "For every network event the operation carries the recorded protocol (TCP or UDP), and the path is 'source -> destination' where each endpoint is the host name the log records for that address, else the address itself (dotted IPv4, or eight unpadded hexadecimal IPv6 groups), and the port name recorded for that port and protocol, else its number. The details start with the transfer length, followed by all recorded name/value pairs in order.",
 ["inputs"], "all addresses, ports, protocols, host and port tables (partial, empty names, same port under TCP and UDP)",
 TESTS + "they hold a handful of endpoints, so table lookups by protocol, IPv6 forms and empty names are unsampled.",
 [FMT, DET, CONST], [("get_network_event_details", DET), ("__hostname_idx/__port_idx, HostnamesTable, PortsTable", FMT)], ["Event.operation, path, details"])

prop("P12", "Registry key operations are decoded exactly",
 "For every registry open, create, query-key, enumerate-key, set-information, load, unload, rename, delete, flush, close, multiple-value and security event, the path, category and ordered details (desired and granted access, disposition, query class and all its fields, index, length, new name, hive path, set-information values) equal what the log records. Fields appear only when the log holds the data for them; a query without result data reports the buffer length instead.",
 ["inputs"], "all registry key operations, all information classes, all field values, with and without extra details, ASCII and UTF-16 strings",
 TESTS + "rare classes (Full, Node, HandleTags, Flags), set-information kinds and boundary values hardly or never occur.",
 [DET, CONST], [("get_registry_event_details and handlers", DET)], ["Event.path, category, details"])

prop("P13", "Registry values are decoded exactly for every type",
 "For every set-value, query-value and enumerate-value event, the type, the length and the data equal what the log records: DWORD and QWORD as unsigned integers, strings as text, multi-strings as the list of strings, binary as exactly the recorded bytes, and no data for other types or when the length is zero. An unknown type is shown by its number, and a value that the log holds only partly never yields bytes that are not part of it. Enumerations also give the index, and full information gives the value's name.",
 ["inputs"], "all registry types (known and unknown), lengths, data bytes and information classes",
 TESTS + "types such as MULTI_SZ, QWORD or unknown ones with boundary lengths are sampled a few times at most.",
 [DET, HLP, CONST], [("read_registry_data", DET), ("get_registry_query_or_enum_value_extra_details / set_value", DET)], ["Event.details"])

prop("P14", "File operations are named, located and CreateFile fully described",
 "Every file system event carries the recorded path and the specific operation its sub-operation code names (an unknown code is marked as unknown, code zero keeps the general name). For CreateFile, desired access, disposition, options, attributes, share mode, allocation size (where applicable), impersonated SID and open result equal the recorded values, in that order, and the category is Write exactly when the open result says the file was created, superseded or overwritten or, without a known result, the known disposition is any other than Open.",
 ["inputs"], "all sub-operation codes, access masks, option/attribute/share bits, dispositions, SIDs, open results, both bitnesses",
 TESTS + "most bit combinations, dispositions, SIDs and sub-operations never occur.",
 [DET, CONST], [("get_filesystem_event_details", DET), ("get_filesystem_create_file_details", DET)], ["Event.operation, path, category, details"])

prop("P15", "Reads, writes, control codes, mappings and notifications are exact",
 "For every read and write event, offset (signed 64-bit), length (the transferred length when recorded, else the requested one), I/O flags and priority equal what the log records; for every control event the control code is named, or dissected if unknown, with the recorded lengths for pipe controls and the offset and length of an offload read. File mappings give sync type and page protection, change notifications the filter flags, and delete-disposition events whether the file will be deleted. The category is the one Procmon assigns to that operation or control code.",
 ["inputs"], "all flag, priority, offset, length, control code, protection and filter values, with and without extra details, both bitnesses",
 TESTS + "few flag and control-code combinations and no negative or >4 GiB offsets occur.",
 [DET, CONST], [("get_filesystem_read_write_file_details", DET), ("get_filesystem_ioctl_details", DET), ("get_filesystem_create_file_mapping", DET), ("notify/setdisposition handlers", DET)], ["Event.category, details"])

prop("P16", "Directory enumerations list every returned entry in order",
 "For every directory query, the details give the filter, if any, the information class and then every entry name of the recorded result in order, numbered consecutively (from 1 with a filter, from 0 without), for each of the six directory information classes and both bitnesses. The filter is joined to the path with exactly one backslash between them. An entry whose next offset leads past the captured data is the last one. A result that is cut short ends the listing or raises; it never lists a name that is not (the beginning of) a recorded one.",
 ["inputs"], "all six entry layouts, any number of entries, name lengths, paddings and filters",
 TESTS + "the comparison accepts any listing that contains Procmon's, and three of the six layouts never occur.",
 [DET], [("get_filesystem_query_directory_details", DET)], ["Event.path, details"])

prop("P17", "Process, thread and image events are decoded exactly",
 "For every process define/create/start/exit/statistics, thread create/exit and image load event, the path and the ordered details (PIDs, command line, current directory, the full environment in order, exit status, times, memory counters, thread ids, image base and size) equal what the log records, for ASCII and UTF-16 strings of any recorded length and both bitnesses. Skipped variable-size parts never shift later fields.",
 ["inputs"], "all field values, string forms and lengths, environments of any size",
 TESTS + "exit and statistics details are never compared (their names are filtered out), and 64-bit extremes do not occur.",
 [DET, HLP], [("get_process_*_details, get_load_image_details, get_thread_*_details", DET)], ["Event.path, details"])

prop("P18", "Strings are decoded completely and stop where they should",
 "Every string of a log, whether in a table, in the header or in event details, decodes to exactly its recorded characters: characters beyond the BMP are kept, an unpaired surrogate becomes U+FFFD, and a UTF-16 string ends at its declared length or its first NUL, whichever is first, without consuming or losing what follows it; an ASCII one is all its declared characters. Maximum-length detail strings (32,767 characters) and table strings beyond 65,536 characters are complete, in both the ASCII and the UTF-16 form.",
 ["inputs"], "all code units including NUL, surrogates and non-BMP, at all positions, all declared lengths",
 TESTS + "real captures have short, well-formed, mostly ASCII strings.",
 [HLP, DET, FMT], [("read_utf16, read_utf16_multisz", HLP), ("read_detail_string(_info)", DET)], ["Event.path, details, Process texts, system details"])

prop("P19", "CSV-compatible columns match Procmon's export format",
 "For every event the CSV-compatible record has exactly one text per Procmon column, under Procmon's column title, and every column other than Detail has the value Procmon exports: date and time in its 12-hour forms with 100 ns digits, relative time since the given first event, duration and completion time (blank while the result is pending), result text, class, operation, ids, architecture, virtualization, authentication id and the process texts. The values do not depend on the machine's time zone, and asking for them does not change the event.",
 ["inputs", "configurations"], "all event values: any capture time and duration, result, class, process; any reference first event; any time zone",
 TESTS + "times of day such as midnight or noon, long captures, odd durations and unusual processes are not among them.",
 [LOGS, CONST], [("Event.get_compatible_csv_info and formatting helpers", LOGS), ("ColumnToOriginalName, get_error_message", CONST)], ["Event.get_compatible_csv_info"])

prop("P20", "The CSV Detail column renders details as Procmon does",
 "For every event of a supported operation, the CSV Detail text is its details in order as 'name: value' joined by ', ', each value in Procmon's form (thousands separators, hexadecimal, seconds with seven decimals, spaced binary bytes, joined multi-strings, continued lines, hidden internal fields), and is empty when there are no details. On the genuine captures it equals Procmon's own export. Producing it does not change the event.",
 ["inputs"], "all details of supported operations, all values; all events of the genuine captures",
 "The existing comparison skips process operations whose names contain a blank and accepts differing registry data and directory listings.",
 [LOGS], [("Event._get_compatible_csv_detail_column", LOGS)], ["Event.get_compatible_csv_info()['Detail']"])

prop("P21", "Event dates are exact and zone-correct",
 "For every capture time, the date of an event is the exact UTC instant to the microsecond (100 ns digits cut), or, when local time is asked for, that instant in the machine's zone including daylight saving; an event without a time has no date. UTC results do not depend on the machine's zone.",
 ["inputs", "configurations"], "all capture times from 1970 to 9999, all sub-second parts, all time zones",
 "One date of one event is checked, under the test machine's zone.",
 [LOGS], [("Event.date", LOGS)], ["Event.date(is_utc)"])

prop("P22", "Numeric codes map to Procmon's names, unknown codes stay visible",
 "Every operation, sub-operation, result, control code, access, option, attribute, share, flag, type, disposition and information-class code that Procmon names is shown under exactly that name, and combined bit masks show every set bit that has a name, in Procmon's order, with generic rights shown as such. A result, control, type, access or flag code without a name is never shown as another code's name: it is shown by number or as unknown, or left out where Procmon does so.",
 ["inputs"], "all codes of all dictionaries, all single bits and bit combinations, unknown codes around them",
 TESTS + "only the codes that happen to occur are checked, a small part of the dictionaries.",
 [CONST, DET], [("enums and dictionaries", CONST), ("_get_mask_string/_get_access_mask_string", CONST)], ["Event.operation, details, CSV Result and Detail"])

prop("P23", "Opening and reading touch only the bytes they need",
 "Opening a log reads its header and tables but none of its events, and reading one event reads only around that event and its extra details, so that both work on logs far larger than memory and the cost of reading an event does not depend on the number or size of the others. Nothing but reads and position moves is asked of the stream.",
 ["inputs", "histories"], "all logs, including sparse ones of many GiB, all access orders",
 "Tests hold the whole log in memory and never observe the I/O.",
 [FMT, INIT, LOGS], [("PMLStreamReader.__init__", FMT), ("lazy get_event_at_offset", FMT)], ["reads and seeks recorded by an instrumented stream"])

prop("C01", "Every configuration survives dump and load unchanged",
 "For every configuration made of any known options with legal values and any unknown options with byte values, in any order, loading its dump gives an equal configuration: same options, same order, equal rules, columns, fonts, texts, numbers and bytes. This holds for every rule that can be constructed: any column, relation, action and text, however number-like, empty, long or exotic the text is (texts with NULs or unpaired surrogates, which the format cannot hold, excepted).",
 ["inputs"], "all option subsets and orders, all rule lists, all text values, all numeric extremes",
 "One genuine configuration is round-tripped; rule values there are plain words.",
 [CFMT, CFG, CH], [("Record, RulesStruct, FontStruct", CFMT), ("FixedUTF16String etc.", CH)], ["dumps/loads, dump/load"])

prop("C02", "Genuine configuration files are reproduced byte for byte",
 "Loading a configuration file as Procmon writes it and dumping the result reproduces the file byte for byte. Changing, adding or removing one option changes, adds or removes the bytes of that option's record only; every other record stays byte-identical and in place.",
 ["inputs", "histories"], "the genuine file, every file in Procmon's layout, every single-option edit",
 "One unedited genuine file is compared.",
 [CFMT, CH], [("Record", CFMT)], ["loads then dumps"])

prop("C03", "Dumped configurations follow Procmon's record format",
 "Every dumped configuration is a sequence of records in the given order, each with correct record, header, name and data sizes, a NUL-terminated UTF-16 name and its data in the documented format for that option: 32- or 16-bit little-endian numbers, fonts as 92-byte LOGFONTW, NUL-terminated (or for the dbghelp and log file paths unterminated) texts, rules with column, relation, action, text and its length. A rule's numeric field is its text's number if that is all decimal digits and fits 32 bits, else for architecture rules 32 or 64 as the text says, else zero.",
 ["inputs"], "all configurations that can be dumped",
 "The dump is only compared with one genuine file.",
 [CFMT, CH, CDOC], [("Record layout, size back-patching", CFMT), ("get_rule_integer_value", CFMT)], ["bytes of dumps_configuration, parsed by an independent reader"])

prop("C04", "A cut-off configuration yields exactly its complete records",
 "Loading any prefix of a configuration returns exactly the records that are complete in it, in order and unaltered, never a partial or invented one. A record whose declared size contradicts its name and data sizes is rejected with RuntimeError rather than misread, and a text that is not UTF-16 never silently hides the records after it.",
 ["inputs", "crash_points"], "all configurations, every truncation point, every inconsistent record size",
 "No existing test loads a truncated or inconsistent configuration.",
 [CFMT, CH], [("load_configuration loop", CFMT), ("CheckCustom", CH)], ["loads_configuration / load_configuration on prefixes"])

prop("C05", "Ill-typed or unrepresentable settings are rejected, not altered",
 "Building a rule from a column, relation or action that does not exist raises KeyError (by name) or ValueError (by number), and a value that is not text raises TypeError; names are accepted in any letter case and numbers, names and enumeration members are equivalent. Dumping an option whose value has the wrong type or does not fit its field raises an exception; nothing is dumped that would load as a different value (any iterable of legal items counts as a list, and NULs that end a text are not kept).",
 ["inputs"], "all ill-typed or out-of-range rule arguments and option values (texts without NUL characters)",
 "A few wrong values are tried.",
 [CFG, CFMT, CH], [("Rule.__init__", CFG), ("typed construct fields", CFMT), ("UnicodeStringAdapter", CH)], ["Rule(...)", "dumps_configuration"])

prop("C06", "Configuration I/O respects streams and never alters its input",
 "Dumping writes exactly the configuration's bytes at the stream's current position and leaves the stream at their end, with earlier content untouched, so that dumps can be concatenated; loading reads from the stream's current position, consuming it, and never writes. Stream and bytes variants agree. Dumping never modifies the configuration or its rules, and separately loaded configurations share no mutable state.",
 ["inputs", "histories"], "all configurations, stream positions, sequences of dumps and loads",
 "Existing tests use one-shot bytes or fresh streams.",
 [CFMT], [("dump_configuration/load_configuration", CFMT), ("Pointer back-patching at absolute offsets", CFMT)], ["streams passed to dump/load"])

prop("V01", "Rules, events, processes and modules compare and hash by value",
 "Two rules, events, processes or modules are equal exactly when they are of the same kind and all their attributes are equal, inequality is the exact opposite, and equal objects have equal hashes, so they work in sets and as keys; comparison with other types is False, never an error. The same event or process read twice, by any route and from any reader of the same log, compares equal, and differs from any that differ in a recorded attribute.",
 ["inputs", "histories"], "all attribute values, single-attribute differences, mixed types, repeated reads",
 "Only two rule equalities are tested.",
 [LOGS, CFG], [("__eq__/__ne__/__hash__", LOGS), ("Rule.__eq__/__hash__", CFG)], ["==, !=, hash, set membership"])

prop("V02", "Printed forms show the recorded values, whatever they contain",
 "The text of an event shows its process name, pid, operation, path and capture time to 100 ns; that of a process its quoted image path and pid; that of a module its quoted path, address and size in hexadecimal; and that of a rule its column, relation, value and action. Their texts and repr forms can be produced for every event (captured before the year 10000), process, module and rule read from any log or configuration, including texts with braces, percent signs, quotes, NULs or surrogates, and producing them changes nothing.",
 ["inputs"], "all events, processes, modules and rules, including special characters and extreme values",
 "repr is only used in failing assertions and str is never checked.",
 [LOGS, CFG], [("__str__/__repr__", LOGS), ("Rule.__str__/__repr__", CFG)], ["str(), repr()"])

prop("H01", "Reading and writing leave the rest of the program alone",
 "Whatever is read or written, good or damaged, the library has no effect outside the streams it is given: it opens no file but a path it was asked to read, that one for reading only and closed again when the call ends in any way, starts nothing, prints nothing, and changes no setting of the process (environment, directory, locale, time zone, warnings, random state, hooks and the like). Nothing of a log is kept once its reader and what was read from it are no longer used.",
 ["inputs", "histories"], "all logs and configurations, damaged ones included, streams and paths",
 "The tests look at results only, never at effects.",
 [INIT, FMT, CFMT], [("read_all_events_from_pml", INIT), ("load/dump", CFMT)], ["audit events, process settings, open files, output, weak references around every call"])

prop("H02", "Separate readers and configurations may be used from several threads",
 "Threads that each use their own reader and stream, load and dump configurations, build rules, or export and print the same events and processes and dump the same configuration at the same time, each get exactly what they get when they run alone, however the threads are interleaved.",
 ["schedules", "inputs"], "all interleavings of threads with separate readers, or that only look at shared results",
 "No test uses a thread.",
 [FMT, LOGS, CFMT], [("PMLStreamReader", FMT), ("get_compatible_csv_info", LOGS), ("load/dump", CFMT)], ["results of each thread under a controlled scheduler"])

prop("H03", "Results depend on the input, not on the interpreter's settings",
 "Everything that logs and configurations give, and every dump and refusal, is the same whatever the interpreter's settings: optimisation that drops assertions, hash seed, locale and encodings, time zone (where local time is not asked for), working directory, decimal context, garbage collection, tracing, missing standard streams, the thread, and the order in which the package's modules are imported.",
 ["inputs", "configurations"], "all good logs and configurations, all settings of the interpreter",
 "The tests run under one setting.",
 [FMT, DET, LOGS, CFMT, CONST], [("whole package", INIT)], ["results in fresh interpreters with other settings"])

prop("H04", "Memory does not grow with the number of events read",
 "A program that reads events one after another (iterating, by index or slice, exporting and printing them, or failing to read some) and lets them go needs no more memory at the end than at the start: no event, and no share of the bytes read, is kept by the reader or the library. The same holds for opening many logs, or loading and dumping many configurations, one after another.",
 ["histories", "inputs"], "all logs, all sequences of reads whose results are dropped",
 "The tests keep what they read and never look at memory.",
 [FMT, LOGS, DET], [("PMLStreamReader.get_event_at_offset", FMT), ("ProcmonLogsReader", INIT)], ["allocated memory and live events after results are dropped"])

prop("H05", "Returned objects survive copying and pickling",
 "Events, processes, modules, rules, fonts, system details and whole configurations can be copied, deep-copied and pickled (protocol 2 and up), alone or together; each copy is of the same kind, equal to the original (with equal hash, where they compare by value) and shows, exports and dumps the same. Changing a deep or pickled copy never changes the original.",
 ["inputs", "histories"], "all events, processes, modules, rules, fonts and configurations that can be read or built",
 "No test copies a result.",
 [LOGS, CFG], [("Event, Process, Module", LOGS), ("Rule, Font", CFG)], ["copy, deepcopy, pickle of what is returned"])

prop("H06", "Any binary stream serves, plain or not",
 "A log reads the same through every binary stream that can be read and positioned: buffered, unbuffered, mapped, compressed, archived, spooled or an object with just these methods, whatever its seek method returns. A configuration loads from anything with a read method, dumps to anything with a write method that tells the length written, pipes, sockets and files opened for appending included; dumping to one that does not take everything raises.",
 ["inputs", "configurations"], "all logs and configurations, all kinds of stream",
 "The tests use memory streams only.",
 [FMT, CFMT], [("PMLStreamReader", FMT), ("load_configuration/dump_configuration", CFMT)], ["results through each kind of stream"])

prop("H07", "A call that fails or is interrupted leaves everything as it was",
 "A call that is ended half way, by an error of the stream it uses or by an interruption of the program (Ctrl-C, an exception from a signal handler), at any point, ends with an exception or gives the full result, never part of it as if it were all. Afterwards the same reader, events, processes and configurations, and the library itself, its very first use included, give what they would give had the call never been made; the call can be repeated, on the same stream or another, with the full result. A step of an iteration that was ended may have used up its event, but no other.",
 ["crash points", "histories", "inputs"], "all points of all calls, all errors a stream may raise, all logs and configurations",
 "No test lets a stream fail or interrupts a call.",
 [INIT, FMT, DET, LOGS, CFMT], [("PMLStreamReader", FMT), ("ProcmonLogsReader.__next__", INIT), ("load/dump", CFMT)], ["stream calls that raise, interruptions at traced lines, everything read and dumped afterwards"])

prop("H08", "Calls may be nested",
 "While a call is at work, the code it calls back (the methods of its stream, a list it was given) or that interrupts it (a signal handler, a finalizer) may use the library itself: other logs through readers and streams of their own, other configurations, and the same events, rules and configurations for export, printing and dumping, to any depth. The outer and the inner calls each give exactly what they give alone, and none of them waits forever.",
 ["schedules", "histories", "inputs"], "all calls, all points at which they call back or can be interrupted, all calls made there",
 "No test uses the library from within a call of it.",
 [INIT, FMT, DET, LOGS, CFMT], [("PMLStreamReader", FMT), ("Event.get_compatible_csv_info", LOGS), ("load/dump", CFMT)], ["results of outer and inner calls, waits without progress"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
