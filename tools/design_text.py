TEXT = {
"C01": ["reference model of the two blackboards (`vf/rt.py` World): per thread and per process an ordered map of open values; every snapshot, query by id/name and event record is predicted entry by entry, in path order", "a fixed test checks a handful of nestings; slot collisions in the blackboard hash table, tables that are nearly full, attribute kinds that change the merge path, interleaved threads only occur in histories"],
"C02": ["the same model, extended by the documented containment rule (error -> the thread's regions freeze), and a log scan for the documented message per mistake", "mistakes can occur at any point of any history; the damage usually shows only later or on another thread"],
"C03": ["(a) the model's event records in program order; (b) sequence numbers, sizes and checksums carried by the records themselves against the policy's definition", "buffer boundaries depend on exact sizes of records; the tests' traces fit one buffer"],
"C04": ["independent aggregation (Python) of the trace of the same flush or of the model's records, compared exactly (sums, min, max, avg, count per key and thread)", "hash-table growth, key collisions, attributes appearing between records, thread exits"],
"C05": ["exact recomputation of durations from the trace's own offsets; bounds from independent clock readings around every operation", "timing values differ per run; tests only check that they exist"],
"C06": ["per-thread model (a thread's records do not depend on the schedule), visibility rules for process-scope values, ThreadSanitizer reports whose stacks are in Caliper", "schedules: races show on few interleavings; every program is executed freely with real threads, with yields injected, many programs per second"],
"C07": ["the model with one state per channel: a channel's records are a function of the history and its own configuration", "independence is a claim about all interleavings of channel operations"],
"C08": ["direct evaluation of the configured filters on the event sequence (Python re with bytes for regular expressions restricted to the common subset)", "the tests have one filter each; combinations with nesting, threads and branch state are unbounded"],
"C09": ["direct evaluation over the record list; clock-reading bounds for the runtime interface and the algebra between inclusive, exclusive and totals", "recursion, several paths per record, missing metrics"],
"C10": ["model of loop_monitor and loop_statistics over the loop history; partition property for time-triggered snapshots", "nesting, early exits, prefixes of target names, channels created in the middle of loops"],
"C11": ["map of live ranges with unique ids; address resolution by direct search; concurrent groups under ThreadSanitizer", "splay tree shapes depend on the access history"],
"C12": ["dictionary of everything created so far, re-read after every step", "tree block boundaries, memory pool limits, table-full behaviour"],
"C13": ["independent .cali parser and writer (`vf/model.py`); also: no definition twice, definitions before uses", "values with every kind of special character in every position"],
"C14": ["the record model; differential: same query over one stream and over the split streams", "node numbering and order are free in the format, the tools produce only one of them"],
"C15": ["sanitizers and CPU limit for all bytes; the independent parser decides which records are intact for truncation and line damage", "every cut point, every byte"],
"C16": ["independent evaluation per record", "all types x operators x paths"],
"C17": ["independent evaluation per record", "chains, missing operands, conditions"],
"C18": ["independent evaluation per group with exact rational arithmetic", "operators x keys x missing values x paths"],
"C19": ["single-pass model of all records, compared with every merge tree / rank count", "the partition and order of the records is a free choice the user does not control (MPI)"],
"C20": ["the derivation itself says what the text means; injected mistakes must be rejected; random text must not crash", "unbounded language"],
"C21": ["strict JSON parser (Python json with duplicate-key and constant checks) + the query result", "escaping and layout depend on data"],
"C22": ["independent layout of the query result", "widths, sort stability and tree shape depend on data"],
"C23": ["independent layout / independent .cali parser", "as C22"],
"C24": ["differential: C++ CaliReader against the Python reader on the same text", "two implementations of one format"],
"C25": ["the derivation of the text and an independent evaluation of specs, options and inheritance; error injection", "unbounded language, histories of calls"],
"C26": ["documented precedence evaluated independently", "the product of sources, profiles and repeated definitions"],
"C27": ["Python's exact integers/fractions and byte strings", "extremes and pairs/triples of values"],
"C28": ["the input lists themselves (round trip), exact-size buffers under AddressSanitizer", "every encoded length, every buffer size"],
"C29": ["metamorphic: one abstract program, written through different interfaces, gives one trace; exit paths by return, break, exception", "the combination of interfaces and exit paths"],
"C30": ["model contents of the snapshot; guarded buffers", "buffer sizes relative to contents"],
"C31": ["differential: report in the running program against cali-query on the dump of the same channel", "every query x every history"],
"C32": ["differential: options against CalQL; counts from generated data", "option combinations and spellings"],
"C33": ["the annotation history (visits, paths, iterations), clock bounds, algebra of inclusive/exclusive/percent columns", "options x programs"],
"C35": ["a model that computes every rank's rows, counts, messages and time bounds from the interpreter's log and aggregates them over the communicator; for mpireport channels: the query library applied to each rank's recorded data (local query) and to the results (cross query)", "region trees x options x queries x communicators x start points x other channels"],
"C36": ["the generated timeline itself (regions, lanes, times); for event-trace output the model of C33; json documents parsed strictly and re-expanded to records", "ties, cut traces, several files, attributes and clocks combine"],
"C44": ["the generated chain of calls around every annotation operation, and the driver's own table of its functions' addresses and lines; the annotation model for everything else", "the same address occurs in many paths, attributes and channels, and what was looked up first is cached"],
"C43": ["a stand-in OpenMP runtime in the driver that reports generated events; the annotation model extended by one region per reported scope; for openmp-report clock readings around every operation bound each cell", "real OpenMP programs reach few orders of tool start, channel creation and events, and none deterministically"],
"C42": ["differential: the same generated program on the C and C++ interfaces (themselves decided by C01-C12); the time known to be spent for Fortran region profiles", "every combination of interface, value type, property and configuration call"],
"C41": ["the annotation model extended by one region per call and io channel with the longest mount prefix from /proc/mounts, a model of which descriptors are known, and the same program without the service as reference for results", "the wrappers and their registries are process-wide while channels come and go; descriptors are reused, calls fail, and the C library keeps state of its own"],
"C40": ["the annotation model for event and trace alone; records the added services trigger are recognised by attributes only they write", "services share per-thread state, callbacks and the trace buffer; a service that opens or drops an entry at the wrong moment shows only in combination"],
"C39": ["the annotation model extended by a table of live blocks per channel, with the addresses and thread ids taken from the program's own view of the run", "the wrappers run inside every library call, also within Caliper itself and on threads it has just met"],
"C38": ["the annotation model extended by the hooks' documented effects, one allocation model per channel, clock brackets around async events", "the hooks are global, the channels are not: what matters is which channels exist when"],
"C37": ["the model's sequence of annotation states per thread: samples must be an order-preserving selection of it; everything else must equal the model; for the sample reports the set of paths the threads were in", "signals strike between any two instructions"],
"C34": ["the interpreter's own log of calls and received message identities, and a model of volumes, roots and communicators", "request lifetimes x completion functions x wildcards x filters"],
}
