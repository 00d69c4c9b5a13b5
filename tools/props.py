#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=observe, hook_needed=hook)))

RT = "src/caliper/Caliper.cpp"
prop("C01", "Snapshots carry exactly the annotations open at that moment",
 "After any history of begin, set and end annotations on any thread, a snapshot taken on a thread and a query of an attribute's current value show exactly what that history left visible to the thread: its own thread-scope annotations and the process-scope annotations, every nested value in the order it was opened, only the latest value of set attributes, and nothing that was ended, hidden or belongs to another thread. Beginning and then ending an annotation restores the previous state. Records triggered by begin and end events show the state before a begin and before an end.",
 ["histories", "programs"], "every finite sequence of begin/set/end operations over attributes of every type and property combination, distributed over any number of threads, with snapshots anywhere, for any number of attributes up to the documented capacity",
 "Tests run a handful of fixed programs with two or three nested attributes; interactions of nested, unaligned, by-value, hidden and process-scope attributes over long histories are not sampled.",
 [RT, "src/caliper/Blackboard.cpp", "src/caliper/MetadataTree.cpp", "src/caliper/cali.cpp", "src/services/event/EventTrigger.cpp"],
 [("per-thread and per-process blackboards holding the current context nodes", "src/caliper/Blackboard.cpp"), ("begin/set/end path rewriting in the context tree", RT + ":handle_begin/handle_set/handle_end"), ("process blackboard snapshot cache with version counter", RT + ":update_process_snapshot")],
 ["cali_get / Caliper::get", "pulled and pushed snapshots", "trace records"],
 [("thread_blackboard / process_blackboard", "currently visible annotations", RT)])

prop("C02", "Wrongly nested annotations are contained",
 "Ending a region that is not the innermost open one, ending an attribute that was never begun, or ending with a value that does not match the open one never crashes, never changes any record made before, is reported in the log, and stops annotation tracking only on the offending thread: its open regions stay as they were and later annotations on it have no effect. Other threads and their records are unaffected. Ending a name for which no attribute was ever created is ignored.",
 ["histories", "fault_sequences"], "every history of annotation calls with nesting mistakes injected at any point on any thread",
 "No test makes nesting mistakes and then looks at the surviving data and the other threads.",
 [RT, "src/caliper/cali.cpp"],
 [("stack check on end and per-thread stack error flag", RT + ":load_current_entry, end, end_with_value_check")],
 ["log output", "cali_get", "trace records"])

prop("C03", "A trace holds every record exactly once, in order",
 "With tracing enabled, each measurement event on a thread produces exactly one trace record with the event's data, and a flush delivers a thread's records in program order with none lost, duplicated, merged or altered, whatever the number and size of records, the trace buffer size, and the number of flushes and clears. A bounded buffer only ever loses records in the documented way: 'stop' keeps the oldest prefix, 'flush' writes out the full buffer before continuing, and clearing removes exactly what was recorded so far.",
 ["histories", "configurations"], "every sequence of events, snapshots, flushes and clears, over all buffer policies and sizes and any number of threads",
 "Tests check that a few expected records exist in small traces; none compares complete traces or crosses buffer chunk boundaries except one fixed large trace.",
 ["src/services/trace/Trace.cpp", "src/services/trace/TraceBufferChunk.cpp", "src/common/CompressedSnapshotRecord.cpp", "src/services/recorder/Recorder.cpp"],
 [("chunked per-thread trace buffers with grow/flush/stop policy", "src/services/trace/Trace.cpp"), ("compressed records in the chunk", "src/services/trace/TraceBufferChunk.cpp")],
 ["records delivered by flush", "recorder output file"])

prop("C04", "On-line aggregation equals aggregating the full trace",
 "For any annotated execution, any aggregation key and any set of aggregatable values, the profile produced by on-line aggregation contains exactly one record per thread and distinct key occurring in the execution, and its counts, sums, minima, maxima and averages equal those obtained by aggregating a complete trace of the same execution, across all threads (averages of integer attributes are rounded toward zero). Flushing without clearing and continuing yields the totals of the whole execution; clearing restarts from zero.",
 ["histories", "configurations"], "all event histories, aggregation key configurations and value attributes, including many distinct keys and many threads",
 "Tests check single expected sums on one program; no test compares a profile against a trace, uses many keys, or flushes and continues.",
 ["src/services/aggregate/Aggregate.cpp", "src/services/aggregate/AggregationDB.cpp"],
 [("hash table of aggregation entries keyed by context nodes and immediates", "src/services/aggregate/AggregationDB.cpp")],
 ["records delivered by flush of a channel with the aggregate service"])

prop("C05", "Region times add up",
 "In any properly nested execution the measured times are consistent: time offsets never decrease within a thread, the durations between consecutive snapshots of a thread add up to the difference of the offsets, the inclusive duration reported when a region ends equals the time elapsed since it began, and in profile reports a region's inclusive time equals its exclusive time plus the inclusive times of its children while all exclusive times add up to the total; a report ordered by time has its branches in that order. The first duration of a channel counts from its creation, and inclusive durations are meant for regions during which the channel stays active.",
 ["histories", "configurations"], "all nested begin/end histories on any number of threads, with timer units and options, and regions re-entered recursively",
 "Tests only check that time attributes exist.",
 ["src/services/timer/Timer.cpp", "src/caliper/RegionProfile.cpp", "src/caliper/controllers/RuntimeReportController.cpp"],
 [("per-thread timer with start-time stack", "src/services/timer/Timer.cpp")],
 ["time.offset, time.duration, time.inclusive.duration in trace records", "RegionProfile API", "runtime-report output"])

prop("C06", "Concurrent annotation loses and mixes nothing",
 "When any number of threads annotate, create attributes, take snapshots and start and exit concurrently, each thread's records are complete, in order and contain only that thread's and process-scope annotations; an attribute name denotes one attribute on all threads, and every stored value reads back unchanged. No interleaving crashes, deadlocks or makes runtime-internal memory accesses race.",
 ["schedules"], "all interleavings of annotation, attribute creation, snapshot and thread start/exit operations of multiple threads",
 "The one threading test runs a tiny fixed program once and looks for a few records.",
 [RT, "src/caliper/MetadataTree.cpp", "src/services/trace/Trace.cpp", "src/services/aggregate/Aggregate.cpp", "include/caliper/common/lockfree-tree.hpp"],
 [("thread-local data plus lock-free context tree", "include/caliper/common/lockfree-tree.hpp"), ("attribute map lock", RT + ":create_attribute"), ("thread-exit release protocol of service databases", "src/services/trace/Trace.cpp")],
 ["trace and profile records after all threads joined", "thread sanitizer reports"])

prop("C07", "Measurement channels are independent",
 "Any number of channels can be created, activated, deactivated, flushed, cleared and deleted in any order while a program runs, and each channel records exactly the events that happen while it is active, under its own configuration, with the full annotation context regardless of when the channel was created; values set on one channel are visible only there, and no operation on one channel changes what another records or outputs.",
 ["histories", "configurations"], "all interleavings of channel life-cycle operations with annotations, for any channel configurations",
 "Tests use two or three channels in one fixed order.",
 [RT, "src/caliper/cali.cpp", "src/caliper/ChannelController.cpp"],
 [("active channel list and per-channel event callbacks", RT + ":activate_channel/deactivate_channel/delete_channel")],
 ["per-channel flushed records", "cali_channel_is_active, cali_channel_get"])

prop("C08", "Event and region filters select exactly the configured events",
 "The event service takes a snapshot for a begin, set or end event if and only if the event's attribute, region level and value satisfy the configured trigger list, minimum region level, include and exclude region patterns (exact name, startswith, regex or match) and branch filter; a filter with an unterminated argument list or an invalid regular expression is reported and not applied. Filtering never changes the annotation context shown in the records that are taken.",
 ["configurations", "histories"], "all filter specifications in the documented grammar combined with all event histories",
 "Tests use one include, one exclude and one branch pattern on one program.",
 ["src/services/event/EventTrigger.cpp", "src/caliper/RegionFilter.cpp"],
 [("region filter parsing and matching", "src/caliper/RegionFilter.cpp"), ("event callbacks", "src/services/event/EventTrigger.cpp")],
 ["trace records and event.begin/event.end info"])

prop("C09", "Region profiles attribute each measurement to the right regions",
 "The region profile interfaces return, for any execution or record set, a map in which every region's exclusive value is the sum of the measurements taken while it was the innermost region, its inclusive value is the sum of the measurements taken while it was open anywhere on the stack counted once, and total and region totals are the sums over all and over region-annotated measurements. Restricting the profile to one region type considers only regions of that type; a type that does not exist selects nothing. The innermost region of a record is the last entry of its region path.",
 ["histories", "inputs"], "all nested region histories including recursion and mixed region types, and all record sets",
 "Unit tests use one fixed set of five records without recursion.",
 ["src/caliper/RegionProfile.cpp", "src/reader/FlatInclusiveRegionProfile.cpp", "src/reader/FlatExclusiveRegionProfile.cpp", "src/reader/NestedInclusiveRegionProfile.cpp", "src/reader/NestedExclusiveRegionProfile.cpp"],
 [("profile processors walking the region path of each record", "src/reader/FlatInclusiveRegionProfile.cpp")],
 ["results of the profile processors and RegionProfile"])

prop("C10", "Loop monitoring takes exactly the configured snapshots",
 "For any loop nest and iteration counts, the loop monitor snapshots a target loop when it begins, after each configured number of iterations, and when it ends; the iteration counts reported for a loop add up to the iterations executed, start iterations continue without gap or overlap, and loops not selected as target produce no loop snapshots.",
 ["histories", "configurations"], "all loop nests, iteration counts, intervals and target loop lists",
 "Tests use one loop with fixed iteration counts.",
 ["src/services/monitor/LoopMonitor.cpp"],
 [("loop level and iteration counters", "src/services/monitor/LoopMonitor.cpp")],
 ["loop.iterations, loop.start_iteration in trace records"])

prop("C11", "Tracked allocations are accounted exactly",
 "For any sequence of tracked allocations and deallocations, the active-memory count equals the bytes of the currently live tracked allocations, each allocation and its deallocation are reported with the same unique id, address, label and size, and every tracked address-valued measurement that lies inside a live allocation is resolved to that allocation and to the correct element index, and none outside is. The allocation statistics give, for each region, exactly the total bytes, number, largest and average size of the tracked allocations made in it.",
 ["histories", "inputs"], "all allocation/deallocation histories with any sizes, dimensions, overlaps in time, repeated addresses and lookups at interval boundaries",
 "Tests make a few fixed allocations and check for some labels.",
 ["src/services/alloc/AllocService.cpp", "src/services/alloc/AllocStatsService.cpp", "src/services/alloc/SplayTree.hpp", "src/caliper/cali_datatracker.cpp"],
 [("interval lookup tree of live allocations", "src/services/alloc/AllocService.cpp")],
 ["mem.alloc, mem.free, alloc.*, mem.active entries in trace records"])

prop("C12", "Attributes and context tree are canonical and persistent",
 "An attribute name denotes a single attribute for the whole run: creating it again on any thread returns the same attribute with its original type, properties and metadata, different names never share one, and lookup by name and by id agree. Context entries created from the same sequence of attribute-value pairs denote the same path, keep their values unchanged for the whole run however many entries, blocks and value sizes are created, and when the context table is full new entries may be missing, but nothing crashes and everything created before stays intact.",
 ["histories", "inputs"], "all sequences of attribute and context entry creations of any size, on any number of threads, with any table limits",
 "Unit tests create a few attributes and a single big tree.",
 ["src/caliper/MetadataTree.cpp", "src/caliper/MemoryPool.cpp", RT, "src/common/Attribute.cpp"],
 [("context tree get_child/get_path", "src/caliper/MetadataTree.cpp"), ("chunked memory pool", "src/caliper/MemoryPool.cpp")],
 ["attribute properties", "node paths and values"])

prop("C13", ".cali output reads back as the same data",
 "Writing any set of records, attributes and run globals in .cali format and reading the result gives the same records in the same order with the same attribute names, types, properties and metadata, the same nesting paths and the same values, including values that contain delimiters, quotes, backslashes, line breaks, empty strings and non-ASCII text; reals keep the printed precision. Each record's attributes and context nodes are written before they are used, and none is written twice.",
 ["inputs"], "all record sets over all value types, string contents, tree shapes and entry counts",
 "Tests read back a few fixed strings; most delimiter combinations and wide trees are never written.",
 ["src/reader/CaliWriter.cpp", "src/reader/CaliReader.cpp", "src/common/util/format_util.cpp", "src/services/recorder/Recorder.cpp"],
 [("escaping writer", "src/reader/CaliWriter.cpp"), ("escape-aware reader", "src/reader/CaliReader.cpp")],
 ["records delivered by the reader"])

prop("C14", "Merging streams is a faithful union",
 "Reading any number of .cali streams into one query gives exactly the union of their records, as if each record had been read alone: ids of different streams never mix, equal attribute names unify, equal paths unify, and the run globals of all streams are kept. The result does not depend on how node ids are numbered or ordered within the streams, on duplicate definitions, or on how the records are split over streams.",
 ["inputs"], "all sets of streams with arbitrary id numberings, overlapping or differing attribute and node definitions and splits",
 "Tests only read one stream at a time, or two fixed ones.",
 ["src/reader/CaliReader.cpp", "src/reader/CaliperMetadataDB.cpp"],
 [("per-stream id maps into one metadata database", "src/reader/CaliperMetadataDB.cpp:merge_node, merge_snapshot")],
 ["records delivered by the reader", "cali-query output over multiple files"])

prop("C15", "Malformed or truncated input never breaks the reader",
 "For any byte sequence given as a .cali stream the reader and every query terminate without crash, memory error or endless loop, report malformed lines, and still deliver every intact record whose definitions are intact; truncating a valid stream at any point yields exactly the records of the complete lines before the cut.",
 ["inputs", "fault_sequences", "crash_points"], "all byte strings, and all truncations, line deletions, duplications and corruptions of valid streams",
 "No test feeds malformed .cali data.",
 ["src/reader/CaliReader.cpp", "src/reader/CaliperMetadataDB.cpp", "src/common/StringConverter.cpp", "src/common/Variant.cpp"],
 [("line parser with error reporting", "src/reader/CaliReader.cpp")],
 ["delivered records", "reader error state", "exit status and sanitizer output"])

prop("C16", "WHERE keeps exactly the matching records",
 "A filter list keeps a record if and only if every one of its conditions holds for it: existence, equality and ordering tests compare by the attribute's type, a nested or path attribute satisfies a condition if any of its values on the path does, absence is tested by negation, and records are otherwise passed on unchanged.",
 ["inputs", "programs"], "all records and all condition lists over all operators, types and operand texts",
 "Unit tests try single conditions on three records.",
 ["src/reader/RecordSelector.cpp", "src/common/cali_variant.c"],
 [("condition evaluation over expanded entries", "src/reader/RecordSelector.cpp")],
 ["query output"])

prop("C17", "LET computes its definition for every record",
 "Each LET operator adds, to exactly the records that have all its operands and satisfy its IF condition, the value its documentation defines (ratio, scale, truncate, first, sum, leaf), computed from that record alone, in the order given so that later terms can use earlier results, and leaves all other entries unchanged.",
 ["inputs", "programs"], "all LET term lists over all operators, operand types, numeric values and records",
 "Unit tests check one record per operator.",
 ["src/reader/Preprocessor.cpp"],
 [("preprocessor operator kernels", "src/reader/Preprocessor.cpp")],
 ["query output"])

prop("C18", "Query aggregation computes exactly the grouped reductions",
 "For any record set, GROUP BY key and list of aggregation operators, the query result has exactly one row per distinct key value combination present (records lacking some key attributes group among themselves), and each operator's value is the reduction documented for it - count, sum, minimum, maximum, average, any, percent of total, ratio, scale, variance and inclusive variants over nested paths - of all records in that group and no others.",
 ["inputs", "programs"], "all record sets, key lists and operator lists over all value types, missing values, repeated operators and nested paths of any depth",
 "Unit tests use one small fixed tree and check single values.",
 ["src/reader/Aggregator.cpp"],
 [("trie of aggregation keys and aggregation kernels", "src/reader/Aggregator.cpp")],
 ["query output"])

prop("C19", "Aggregation is independent of order and partition",
 "Aggregating any record set gives the same result whatever the order of the records and however they are split into parts that are aggregated separately and then merged with the documented cross-aggregation, on one process or across any number of MPI ranks: counts, sums, minima, maxima, averages, percentages and ratios of the merged result equal those of a single-pass aggregation of all records, and no record is lost or counted twice.",
 ["inputs", "configurations"], "all record sets, permutations, partitions, merge orders and rank counts, for every aggregation operator",
 "Unit tests never merge partial aggregates; MPI tests run on one rank.",
 ["src/reader/Aggregator.cpp", "src/caliper/aggregate_over_mpi.cpp", "src/caliper/collective_flush.cpp", "src/common/NodeBuffer.cpp", "src/common/SnapshotBuffer.cpp"],
 [("hidden helper attributes carrying partial state", "src/reader/Aggregator.cpp"), ("binary-tree reduction over ranks", "src/caliper/aggregate_over_mpi.cpp")],
 ["query output", "mpi-caliquery and cross-process report output"])

prop("C20", "A CalQL text means what it says, and bad text is rejected",
 "Any well-formed query text parses to exactly the selections, aggregations, grouping, conditions, preprocessing terms, sort keys, format, aliases and units written in it, independent of keyword case, clause order, white space and quoting style. Any other text is rejected with an error message, and no text crashes or hangs the parser or the execution of an accepted query.",
 ["inputs", "programs"], "all query texts: all derivations of the query grammar and arbitrary byte strings",
 "Unit tests parse about twenty fixed queries.",
 ["src/reader/CalQLParser.cpp", "src/common/util/parse_util.cpp", "src/reader/QuerySpec.cpp"],
 [("recursive descent parser", "src/reader/CalQLParser.cpp")],
 ["parsed query specification", "parser error state"])

prop("C21", "JSON output is valid JSON and faithful",
 "For any records, attribute names, values and JSON options, the output of the JSON and JSON-split writers is well-formed JSON and contains exactly the selected attributes of every record with their values, nested paths, aliases, attribute metadata and run globals.",
 ["inputs", "configurations"], "all records, selections, aliases and writer options, with any characters in names and values",
 "Tests parse JSON of three fixed programs.",
 ["src/reader/JsonFormatter.cpp", "src/reader/JsonSplitFormatter.cpp", "src/common/util/format_util.cpp"],
 [("JSON writers", "src/reader/JsonFormatter.cpp")],
 ["query output parsed by an independent JSON parser"])

prop("C22", "Table and tree reports show every record correctly",
 "A table report has one row per record with each selected attribute's value in its own aligned column (blank when absent) and the rows in the requested sort order, stable for equal keys; a tree report shows one line per distinct path or per record on it, each below its parent with the right indentation, with siblings in the requested order. Column headers show the alias or attribute name, and a maximum column width only shortens text.",
 ["inputs", "configurations"], "all record sets, selections, sort lists, aliases and width options",
 "Tests compare a few fixed reports.",
 ["src/reader/TableFormatter.cpp", "src/reader/TreeFormatter.cpp", "src/reader/SnapshotTree.cpp"],
 [("column bookkeeping and row sort", "src/reader/TableFormatter.cpp"), ("tree construction from nested attributes", "src/reader/SnapshotTree.cpp")],
 ["query output"])

prop("C23", "Expanded and format-string output shows every record correctly",
 "The expand writer prints one line per record listing exactly its visible selected attributes with their values (nested paths joined with slashes); the format-string writer substitutes each field with that record's value padded or truncated to the given width and alignment, and leaves other text unchanged; re-emitting .cali from a query gives a stream that describes the same query result.",
 ["inputs", "configurations"], "all record sets, selections and format strings",
 "Tests cover a single escape case and one format string.",
 ["src/reader/Expand.cpp", "src/reader/UserFormatter.cpp", "src/common/SnapshotTextFormatter.cpp", "src/reader/FormatProcessor.cpp"],
 [("expand writer", "src/reader/Expand.cpp"), ("format string parser", "src/reader/UserFormatter.cpp")],
 ["query output"])

prop("C24", "The Python reader agrees with the C++ reader",
 "For every .cali stream the tools produce, the Python reader returns the same records, run globals and attribute metadata as the C++ reader: same visible attributes, same values as text, nested values as lists in path order.",
 ["inputs"], "all .cali streams written by the library",
 "The Python tests read one small stream.",
 ["python/caliper-reader/caliperreader/caliperreader.py", "python/caliper-reader/caliperreader/metadatadb.py"],
 [("Python .cali parser", "python/caliper-reader/caliperreader/caliperreader.py")],
 ["return values of the Python reader"])

prop("C25", "Configuration strings are parsed or rejected exactly",
 "A configuration string that follows the documented grammar with known configurations and options activates exactly the named configurations with exactly the given option values, independent of white space and of how the options are spread over several calls; anything else - unknown names, malformed values, unbalanced parentheses or braces - is reported as an error and starts no measurement. Checking a string gives an error exactly when adding it would, and no string crashes the parser.",
 ["inputs", "configurations"], "all configuration strings: all derivations of the grammar and arbitrary mutations",
 "Unit tests try a dozen fixed strings.",
 ["src/caliper/ConfigManager.cpp", "src/common/util/parse_util.cpp", "src/common/StringConverter.cpp"],
 [("config string parser and option validation", "src/caliper/ConfigManager.cpp")],
 ["ConfigManager error state", "created controllers and their parameters"])

prop("C26", "Runtime settings follow the documented precedence",
 "For any combination of settings given through the API, the environment, configuration files with profile sections and built-in defaults, the value used for each variable is the one from the highest-precedence source that defines it, read according to the variable's type; disabling environment reads ignores the environment, and settings of one profile or channel never affect another.",
 ["configurations"], "all combinations of sources, keys and values",
 "Unit tests check one file and one profile.",
 ["src/common/RuntimeConfig.cpp"],
 [("layered config profiles", "src/common/RuntimeConfig.cpp")],
 ["configuration values read by services"])

prop("C27", "Values compare, convert, print and pack consistently",
 "For values of every type, equality is an equivalence that matches the represented value, ordering is a total order consistent with equality and with the numeric or lexical order, packing and unpacking is the identity, printing and parsing an integer, boolean, type or string value returns the same value, conversions report failure instead of returning wrong numbers (integer text beyond 64 bits gives the nearest representable value), and arithmetic (sum, minimum, maximum) agrees with exact arithmetic in range.",
 ["inputs"], "all values and pairs and triples of values of every type, including extremes",
 "Unit tests check a few values per type.",
 ["src/common/cali_variant.c", "src/common/Variant.cpp", "src/common/StringConverter.cpp", "src/common/util/vlenc.h", "src/common/util/parse_util.cpp"],
 [("tagged value representation", "src/common/cali_variant.c")],
 ["variant API results"])

prop("C28", "Packed snapshots and transfer buffers are lossless and bounded",
 "Any list of context nodes and immediate values packed into a compressed snapshot, node buffer or snapshot buffer unpacks to the same list in the same order; appending past capacity keeps what fits, reports what was dropped and never writes outside the buffer; importing a transferred buffer yields the sender's nodes and records.",
 ["inputs", "histories"], "all entry lists and append sequences with any ids, values and buffer capacities",
 "Unit tests pack a few entries.",
 ["src/common/CompressedSnapshotRecord.cpp", "src/common/NodeBuffer.cpp", "src/common/SnapshotBuffer.cpp", "include/caliper/SnapshotRecord.h"],
 [("variable-length integer encoding", "src/common/util/vlenc.h")],
 ["unpacked entries", "address sanitizer"])

prop("C29", "All annotation interfaces record the same thing",
 "The same annotated program written with the C functions by id or by name, the C++ annotation classes and scope guards, the annotation macros or the low-level interface produces the same records and the same region profile; every region, function, phase, communication and loop marker opens exactly one region of its kind and closes it on every exit path of its scope.",
 ["programs"], "all nestings of region, function, phase, loop, iteration and attribute annotations expressed through any mix of the interfaces",
 "Each interface has one fixed test program; none is compared against another.",
 ["src/caliper/cali.cpp", "src/caliper/Annotation.cpp", "include/caliper/cali_macros.h", "include/caliper/Annotation.h"],
 [("C wrappers", "src/caliper/cali.cpp"), ("annotation classes", "src/caliper/Annotation.cpp")],
 ["trace records"])

prop("C30", "Snapshot access functions return the snapshot's contents",
 "For any annotation state, a snapshot pulled into a user buffer reports its exact size even when the buffer is too small, never writes beyond the buffer, and unpacking or searching it returns every visible entry with its attribute and value, in path order, and nothing else; snapshots pushed with extra values are recorded with those values.",
 ["histories", "inputs"], "all annotation states, buffer sizes and searched attributes",
 "Unit tests pull one snapshot with three values.",
 ["src/caliper/cali.cpp", "src/common/CompressedSnapshotRecord.cpp"],
 [("packed snapshot in user buffer", "src/caliper/cali.cpp:cali_channel_pull_snapshot")],
 ["cali_unpack_snapshot, cali_find_first_in_snapshot, cali_find_all_in_snapshot results"])

prop("C31", "Reports at run time equal off-line queries of the same data",
 "The output of a report query executed in the running program, directly or by the report service or a built-in configuration, equals the output of the same query applied off-line by the query tool to a .cali file of the same channel data, and run metadata set by the program appears in every output of every channel.",
 ["histories", "programs"], "all channel data and all report queries",
 "Tests check a few expected lines of a report.",
 ["src/services/report/Report.cpp", "src/caliper/cali.cpp", "src/tools/cali-query/cali-query.cpp"],
 [("shared query processor", "src/reader/QueryProcessor.cpp")],
 ["report output", "cali-query output"])

prop("C32", "Query tool options and CalQL are equivalent",
 "Every selection, aggregation, sorting and formatting request given to the query tool through command line options produces the same output as the equivalent CalQL query, over any number of input files or standard input; listing attributes and globals lists exactly those in the input; the statistics tool reports the exact number of records and elements; invalid arguments or queries produce an error message and a non-zero exit status, an unreadable input file at least an error message.",
 ["inputs", "configurations"], "all option combinations, input files and queries",
 "Tests run about ten fixed command lines.",
 ["src/tools/cali-query/cali-query.cpp", "src/tools/cali-query/query_common.cpp", "src/tools/cali-stat/cali-stat.cpp", "src/tools/util/Args.cpp"],
 [("option to query translation", "src/tools/cali-query/query_common.cpp")],
 ["tool output and exit status"])

prop("C33", "Built-in profiling configurations report what the program did",
 "The reports and profiles written by the built-in configurations (runtime-report, runtime-profile, loop-report, spot, event-trace) contain exactly the regions and loops the program executed while the configuration was active and selected by its options; their times lie within what can have elapsed between the operations, inclusive times are the sums over the nested regions, percentages add up; call counts, visits, iteration counts and time series blocks equal those of the program; and each option adds exactly its columns.",
 ["operation_sequences", "configurations"], "all annotated programs and option combinations of these configurations, in one process, any number of flushes and starts and stops",
 "Tests grep a few lines of fixed example programs and never look at the values.",
 ["src/caliper/controllers/RuntimeReportController.cpp", "src/caliper/controllers/LoopReportController.cpp", "src/caliper/controllers/SpotController.cpp", "src/caliper/controllers/controllers.cpp", "src/services/monitor/LoopMonitor.cpp", "src/services/LoopStatistics.cpp", "src/services/timer/Timer.cpp"],
 [("report queries of built-in configurations", "src/caliper/controllers/controllers.cpp"), ("loop time series", "src/caliper/controllers/LoopReportController.cpp")],
 ["report and profile files", "clock readings around the operations"])

prop("C34", "MPI tracing and patterns report exactly the communication that took place",
 "With MPI message tracing on, each rank's records contain one message record for every point-to-point message it sent or received through a wrapped function and one record for every wrapped collective, in program order, inside the calling MPI function's region, with the correct peer, tag, size, root, collective kind and communicator (members and identity); nothing is recorded for null, cancelled, inactive or filtered requests and functions, ignored statuses do not matter, and the communication-pattern totals of a comm region equal the messages and collectives in it. Tracing never changes the program's own results.",
 ["operation_sequences", "inputs"], "all MPI programs over the wrapped functions, rank counts, datatypes, communicators, request lifetimes and filter settings",
 "Tests run one fixed MPI program and look at a handful of message counts.",
 ["src/services/mpiwrap/Wrapper.w", "src/services/mpiwrap/MpiTracing.cpp", "src/services/mpiwrap/MpiPattern.cpp", "src/services/mpiwrap/MpiWrap.cpp"],
 [("message and request tracking", "src/services/mpiwrap/MpiTracing.cpp"), ("PMPI wrappers", "src/services/mpiwrap/Wrapper.w")],
 ["trace files of every rank", "log of the MPI calls made and message identities received"])

prop("C35", "Cross-rank reports of MPI programs aggregate what every rank did",
 "A runtime-report or mpi-report configuration in an MPI program, flushed over a communicator, writes exactly one report that combines the data of exactly the communicator's ranks: a row for every region path (or MPI function) any of them visited while the channel was active, with visit counts, message counts and sizes, communication-region statistics and minimum/average/maximum times over the ranks that agree with what each rank did, independent of which other channels exist, when measurement was started relative to MPI_Init, and how often the communicator was split. An mpireport channel writes what its cross query gives for the results of its local query on each rank's recorded data. Caliper's own communication never appears in the data.",
 ["operation_sequences", "inputs"], "all MPI programs, region trees per rank, report options and queries, sets of channels, start points and communicators",
 "Tests run one MPI program with two ranks and look for a few strings in the report.",
 ["src/services/mpireport/MpiReport.cpp", "src/caliper/collective_flush.cpp", "src/caliper/OutputCommMpi.cpp", "src/caliper/CollectiveOutputChannel.cpp", "src/caliper/CustomOutputController.cpp", "src/caliper/MpiChannelManager.cpp", "src/caliper/setup_mpi.cpp", "src/caliper/aggregate_over_mpi.cpp", "src/caliper/controllers/RuntimeReportController.cpp", "src/caliper/controllers/controllers.cpp"],
 [("cross-process flush", "src/caliper/collective_flush.cpp"), ("collective output channels", "src/caliper/CollectiveOutputChannel.cpp"), ("report recipes", "src/caliper/controllers/RuntimeReportController.cpp")],
 ["report files", "per-rank log of operations, MPI calls and times"])

prop("C36", "Timeline and json-split conversions show exactly the recorded data",
 "cali2traceevent converts any set of .cali traces into a TraceEvent document in which every recorded region instance appears exactly once, on the lane of its process and thread, with its name, category, begin time and duration as recorded; regions whose begin or end lies outside the trace do not distort the others; counters, samples, synchronised clocks, GPU activities and allocation records are placed as documented. json2json_split produces a document whose columns, hierarchy and rows denote the same records as its input.",
 ["inputs"], "all sets of traces: region trees, attributes, processes, threads, clocks, orders of records, cut points; all record lists",
 "Tests run the converters on two small traces and count events.",
 ["python/cali2traceevent.py", "python/json2json_split.py", "python/caliper-reader/caliperreader/caliperreader.py", "src/caliper/controllers/controllers.cpp"],
 [("timeline builder", "python/cali2traceevent.py"), ("json-split converter", "python/json2json_split.py"), ("event-trace recipe", "src/caliper/controllers/controllers.cpp")],
 ["TraceEvent JSON documents", "json-split documents"])

prop("C37", "Sampling leaves annotations intact; samples show states the thread was in",
 "With the sampler active, all annotation effects - event records, queries, other channels' data and profile counts - are exactly those without it. Every sample taken by a thread shows an annotation state that this thread was in at that point of its history (between the events recorded before and after it) while the channel was active; no samples are recorded while the channel is inactive; no state mixes two operations. The number of samples never exceeds the configured rate, and a thread that works long enough while the channel is active is sampled. The sample-report and sample-profile configurations show only call paths some thread was in, with time = samples / frequency.",
 ["schedules", "operation_sequences"], "all interleavings of the sampling signal with annotation operations on all threads, allocations, pauses, and trace or profile buffers",
 "Where a signal strikes is not under a test's control; tests check that samples exist.",
 ["src/services/sampler/Sampler.cpp", "src/caliper/Caliper.cpp", "src/services/trace/Trace.cpp", "src/services/aggregate/Aggregate.cpp", "src/services/aggregate/AggregationDB.cpp", "src/caliper/MemoryPool.cpp", "src/caliper/MetadataTree.cpp", "src/caliper/controllers/SampleReportController.cpp", "src/caliper/controllers/SampleProfileController.cpp"],
 [("signal handler and timers", "src/services/sampler/Sampler.cpp"), ("signal guard", "include/caliper/Caliper.h, src/caliper/Caliper.cpp (sigsafe_instance)")],
 ["trace and profile records of the sampled channel", "records of other channels, query results", "sample-report and sample-profile output"])

prop("C38", "Kokkos hooks and timed async events are recorded exactly",
 "Every Kokkos kernel, fence and user region reported through the tool hooks becomes exactly one kernel_type/region pair on the calling thread, begun and ended with the hook, however many channels ask for it and whatever happens to those channels later. Kokkos allocations, deallocations and deep copies are recorded with space, name, address and size in exactly the active channels that look them up, and in no deleted or paused one. A timed asynchronous event yields one begin record and one end record in each channel that triggers on them, on the threads that began and ended it, with a duration within the real one.",
 ["operation_sequences"], "all sequences of hook calls, async events, annotations and channel operations on all threads, all sets of services",
 "Tests call a few hooks in one order under one channel that lives until the end.",
 ["src/services/kokkos/KokkosTime.cpp", "src/services/kokkos/KokkosLookup.cpp", "src/services/kokkos/KokkosProfilingSymbols.cpp", "src/services/kokkos/types.hpp", "src/caliper/AsyncEvent.cpp", "include/caliper/AsyncEvent.h", "src/services/event/AsyncEventTrigger.cpp", "include/caliper/callback.hpp"],
 [("tool hook dispatch", "src/services/kokkos/KokkosProfilingSymbols.cpp"), ("async events", "src/caliper/AsyncEvent.cpp")],
 ["trace records", "queries"])

prop("C39", "Wrapped allocation and thread calls are seen once and never altered",
 "With the sysalloc service every malloc, calloc, realloc and free of the program on a thread known to Caliper is recorded exactly once in each active channel that asks for it: function, size, address, the calling thread and its open regions, the release with the size, address and number of its allocation, whichever thread releases it. Calls that fail are not recorded. Results, block contents and errno are as without Caliper. With the pthread service every thread carries the id the system knows it by, the main thread is marked as master and no other. Creating, pausing and deleting channels meanwhile affects no other channel and no result.",
 ["operation_sequences", "interleavings"], "all sequences of allocation calls and sizes, annotations, thread starts and ends and channel operations, on all threads",
 "The tests allocate a handful of blocks on the main thread in one channel.",
 ["src/services/sysalloc/SysAllocService.cpp", "src/services/pthread/PthreadService.cpp", "src/services/alloc/AllocService.cpp", "src/services/util/ChannelList.hpp"],
 [("malloc wrappers", "src/services/sysalloc/SysAllocService.cpp"), ("thread wrapper", "src/services/pthread/PthreadService.cpp")],
 ["trace records", "return values, contents and errno"])

prop("C40", "Enabling more services never changes what is recorded",
 "For any annotation history and any set, order and configuration of additional observing services in a channel (validator, statistics, monitors, time series, cpuinfo, memstat, debug, callpath, timers, allocation, async event, kokkos, pthread, I/O and symbol lookup services), the event records of that channel and of all others carry exactly the program's attributes and values they carry without them, in the same order and number; the added services only append entries of their own or records of their own, leave the annotation state of every thread as it is, and never crash, also when channels are created inside open regions, cleared, paused or deleted.",
 ["histories", "configurations"], "all annotation histories on 1-4 threads under 1-3 channels with any selection, order and configuration of 21 services",
 "The tests use each service in one or two fixed configurations and never compare the records with those of a run without it.",
 ["src/services/Services.cpp", "src/services/validator/validator.cpp", "src/services/statistics/Statistics.cpp", "src/services/monitor/RegionMonitor.cpp", "src/services/monitor/LoopMonitor.cpp", "src/services/LoopStatistics.cpp", "src/services/cpuinfo/CpuInfo.cpp", "src/services/memusage/MemStatService.cpp", "src/services/callpath/Callpath.cpp", "src/services/symbollookup/SymbolLookup.cpp", "src/services/debug/Debug.cpp", RT],
 [("service registration and callbacks", "src/services/Services.cpp"), ("event dispatch to services", RT)],
 ["trace records", "crashes"])

prop("C41", "I/O calls are recorded once, at the right place, and never altered",
 "With the io service every open, read, write, stat and close call of the POSIX and stdio functions on a thread known to Caliper appears in each active io channel as exactly one read, write or metadata region, nested in the thread's open regions, with the mount point and file system that the longest matching mount gives for the file's path (unknown for files whose path is not known), and with exactly the bytes the call transferred, failed calls with none. Results, errno and file contents are as without the service, whatever else the program keeps in the C library, and creating, pausing, clearing or deleting channels affects no other channel and no call.",
 ["operation_sequences", "inputs"], "all sequences of I/O calls on files, devices, pipes and missing paths, with any annotations, threads and channel operations between them",
 "The tests read one file in one channel and look for a single region name.",
 ["src/services/io/IOService.cpp", "src/services/io/CurIOus/src/wrappers.c", "src/services/io/CurIOus/src/callbacks.c", "src/services/io/CurIOus/src/file_registry.c", "src/services/io/CurIOus/src/mount_tree.c", "src/services/io/CurIOus/src/dynamic_array.c"],
 [("function wrappers", "src/services/io/CurIOus/src/wrappers.c"), ("callback registry", "src/services/io/CurIOus/src/callbacks.c"), ("mount lookup", "src/services/io/CurIOus/src/mount_tree.c")],
 ["trace records", "return values, errno and contents"])

prop("C42", "The Python and Fortran bindings record what the C and C++ interfaces record",
 "A program written with pycaliper or the Fortran module has exactly the effect of the same program written in C or C++: attributes with any type and properties, typed and untyped begin, set and end by handle, by name and by annotation object, regions, phases, communication regions, loops, globals and attribute lookup give the same records, metadata and run information, on all threads. Functions decorated with annotate_function keep their name, result and exceptions, and their region ends however they end. Configuration through config_preset, ConfigManager specs and options given as text or dict, default parameters, and error reports behave as in C++. Region profiles fetched from Fortran are zero before the first fetch and otherwise contain the time spent in each region.",
 ["inputs", "operation_sequences"], "all annotation programs and configurations expressible in the bindings",
 "Tests run one fixed program per language and look for a handful of records.",
 ["src/interface/python/mod.cpp", "src/interface/python/annotation.cpp", "src/interface/python/instrumentation.cpp", "src/interface/python/loop.cpp", "src/interface/python/config_manager.cpp", "src/interface/python/pycaliper/high_level.py", "src/interface/c_fortran/wrapfcaliper.F", "src/interface/c_fortran/wrapAnnotation.cpp", "src/interface/c_fortran/wrapConfigManager.cpp", "src/interface/c_fortran/wrapScopeAnnotation.cpp", "src/interface/c_fortran/BufferedRegionProfile.cpp", "src/interface/c_fortran/utilCaliper.cpp"],
 [("Python module", "src/interface/python/mod.cpp"), ("function decorator", "src/interface/python/pycaliper/high_level.py"), ("Fortran module", "src/interface/c_fortran/wrapfcaliper.F")],
 ["recorded .cali files", "query results, error messages, region times"])

prop("C43", "OpenMP events are recorded as the runtime reports them and measured right",
 "With the ompt service, every thread, parallel, implicit-task, worksharing and synchronization scope an OpenMP runtime reports appears as a region of the right kind and label on the thread it is reported for, between its begin and end and properly nested with the annotations, in every active channel with the service and in no other; thread numbers, team sizes, processor ids and thread types are attached while they apply. Events of unknown kind are labelled so, initial tasks are ignored, and ends whose begin the tool did not see are harmless, whenever the tool was started. The tool starts when CALI_USE_OMPT or an ompt channel asks for it, refuses otherwise, and is finalized exactly when the last ompt channel goes. openmp-report shows for each region, thread and thread type the thread counts, total, work and barrier times and their ratios that the events imply, in serial and in MPI mode and with any combination of its options.",
 ["inputs", "operation_sequences"], "all sequences of OpenMP tool events on several threads mixed with annotations and channel operations; all openmp-report options",
 "The test suite runs no OpenMP program.",
 ["src/services/ompt/OmptService.cpp", "src/caliper/controllers/OpenMPReportController.cpp", "src/caliper/controllers/controllers.cpp"],
 [("OMPT callbacks", "src/services/ompt/OmptService.cpp"), ("OpenMP report", "src/caliper/controllers/OpenMPReportController.cpp"), ("OpenMP options", "src/caliper/controllers/controllers.cpp")],
 ["traces of every channel, context queries, tool start and finalization", "openmp-report output"])

prop("C44", "Call paths and symbols name the code that was active",
 "With the callpath service every record carries the call path of the place where it was taken: the functions active on that thread from the outermost to the innermost, as addresses, as names or both, with each function as often as it is active, without the frames that were asked to be skipped and at most the 40 innermost. With the symbollookup service every address in a record - of the call path or of any attribute marked as symbol address, by value or by reference - gets, at output, the function, source file, line and module at that address, in the path order of that record, whatever other records, paths, attributes and channels contain the same address, exactly for the attributes and kinds of information the channel asks for, and UNKNOWN where there is no code. Everything else in the records is as without these services.",
 ["operation_sequences", "configurations"], "all nested call chains times annotation histories times call path and symbol lookup options of several channels",
 "The tests look once for the presence of a call path and of a function name.",
 ["src/services/callpath/Callpath.cpp", "src/services/symbollookup/SymbolLookup.cpp", "src/services/symbollookup/LookupLibdw.cpp"],
 [("stack unwinding", "src/services/callpath/Callpath.cpp"), ("symbol lookup", "src/services/symbollookup/SymbolLookup.cpp"), ("debug information", "src/services/symbollookup/LookupLibdw.cpp")],
 ["trace and aggregation records after symbol lookup"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
