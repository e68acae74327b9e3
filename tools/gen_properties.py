#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe or [], hook_needed=None)))
def m(name, where): return dict(name=name, where=where)

p("C01", "Every started client's file is a structurally valid MMV image",
  "For any set of metrics, instance domains and instances a client accepts (any names, description texts, counts, including empty domains and no metrics at all), starting it yields a file that is a well-formed MMV image: right magic, non-zero matching generations, version 2 exactly when some registered metric or instance name is longer than 63 bytes, and a table of contents with one entry per non-empty section plus metrics and values. Sections lie inside the file without overlapping, the file is exactly as long as the client's reported length, every internal reference lands on exactly one record of the right kind, and every text slot is NUL-terminated within its bounds. Header flag, process id and cluster id are those of the client.",
  ["inputs", "configurations"], "all registries reachable through the public registration API (singletons, instance metrics, counters, gauges, timers, vectors, histograms, explicit and string registration, v1 and v2 name lengths), any SetFlag value",
  "Tests publish about a dozen fixed registries, one or two metrics each, with short ASCII names; layout is computed from counts, so offsets can be right for those shapes and wrong for others (empty domains, v2 with descriptions, many domains).",
  ["client.go", "registry.go", "bytewriter/bytewriter.go"],
  [m("length and TOC computed from registry counts", "client.go Length/tocCount/start"), m("record writers", "client.go write*"), m("counts maintained at registration", "registry.go AddMetric/AddInstanceDomain")],
  [dict(name="registry counts", meaning="instances, values, strings", where="registry.go")], ["the mmv file on disk"])

p("C02", "The published image says exactly what was registered",
  "For names and texts without NUL bytes, decoding the file of a started client yields exactly the registered metrics, instance domains and instances: each once, with its own name, type, semantics, unit, short and long description and owning domain, and one value record per metric (or per metric and instance) holding its current value, with nothing missing, duplicated, swapped or invented. The metadata the metric and domain objects themselves report, or show when printed, agrees with what they were constructed with.",
  ["inputs", "configurations"], "all registries reachable through the public API, including several metrics sharing one domain, equal descriptions, v2 names, all value types and boundary values",
  "Existing tests look records up through ids and compare prefixes only, on a few fixed registries; they cannot see swapped descriptions, trailing garbage, extra records or wrong links for shapes they do not build.",
  ["client.go", "metrics.go", "instance_domain.go", "registry.go"],
  [m("writeMetricDesc/writeValue/writeInstanceDomain", "client.go"), m("string slot allocation", "client.go stringoffsetc")], None, ["the mmv file on disk", "Metric accessors"])

p("C03", "While a client is active every update is in the file at once",
  "After any sequence of successful updates to the metrics of an active client, the value a metric reports and the value stored for it in the file are both the last value set, exactly, for every metric and every instance, and no other byte of the file has changed. An update that returns an error (or panics in its Must form) changes neither the reported value nor any byte of the file. Shorter strings leave no residue of longer ones.",
  ["histories", "inputs"], "all interleaved sequences of Set/SetInstance/Inc/Dec/Up/SetAll/IncAll/DecAll/Record/RecordN/Reset calls, valid and invalid, on any mix of metrics sharing one file",
  "Tests do one or two updates on a single metric and look only at that metric's value; they do not look at the rest of the file, at failed updates, or at longer histories.",
  ["metrics.go", "client.go", "bytewriter/bytewriter.go"],
  [m("update closures bound to value offsets", "metrics.go newupdateClosure, client.go writeValue"), m("set/setInstance", "metrics.go")], None, ["the mmv file on disk", "Val/ValInstance"])

p("C04", "Start/stop life cycle keeps metrics and file in step across restarts",
  "While a client is active, registering anything or changing its flag is refused and has no effect; stopping an inactive client is refused; after Stop all of these work again and metrics can still be read and updated without crashing. A registry is published by at most one active client at a time, and an inactive client's registry can be published by another one. Updates made while the client is not active leave any file kept from the previous run untouched, and the next Start publishes every registered metric, old and new, with its current value, as does starting an active client over. Stop removes the file exactly when erasing on stop is switched on, otherwise the file keeps its last published content.",
  ["histories"], "all histories of register, update, Start, Stop, SetFlag and erase-setting changes on one client",
  "Tests contain a single start/stop pair with one refused registration; no test restarts a client, updates after Stop, or registers between runs.",
  ["client.go", "registry.go", "metrics.go"],
  [m("Start/Stop", "client.go"), m("mapped flag", "registry.go, client.go"), m("update closures", "metrics.go")],
  [dict(name="mapped", meaning="a mapping is active", where="registry.go")], ["the mmv file on disk", "returned errors"])

p("C05", "A reader never mistakes a half-written image for a complete one",
  "At every instant while a client is starting, and in whatever a crash at that instant would leave behind, the file either does not look complete (missing magic, or the two generation stamps differ) or is already the complete image of all registered metrics. A restart never changes in place a file that readers of the previous run may still have mapped.",
  ["schedules", "crash_points"], "every instant and every goroutine schedule during Start and restart, for registries from empty to thousands of values",
  "Tests only inspect the file after Start has returned; the publication order inside Start is concurrent and invisible to them.",
  ["client.go", "bytewriter/memorymappedwriter.go"],
  [m("second generation written last", "client.go start"), m("header write order", "client.go writeHeaderBlock"), m("file replaced, not truncated", "bytewriter/memorymappedwriter.go NewMemoryMappedWriter")], None, ["concurrent mmap of the file during Start"])

p("C06", "Registration accepts and counts exactly what it should",
  "For any sequence of registration calls, the registry accepts a metric or instance domain exactly when it is valid (names of metrics and domains not empty; names, instance names and descriptions at most 255 bytes; at most two descriptions) and its name is not already taken (a metric whose domain name is already taken is accepted only if that domain has the same instances), and reports presence and the counts of metrics, values, domains, instances and strings equal to the set accepted so far. A refused registration, through objects or strings, leaves all of these unchanged; the panicking forms panic exactly where the plain ones return an error.",
  ["histories", "inputs"], "all sequences of AddMetric, AddMetricByString, AddInstanceDomain, AddInstanceDomainByName and client shorthands, with duplicate and conflicting names",
  "Tests check counts after at most three successful registrations and no refused one.",
  ["registry.go", "client.go", "instance_domain.go", "metrics.go"],
  [m("AddMetric/AddInstanceDomain/addMetric", "registry.go"), m("addInstanceMetricByString", "registry.go")],
  [dict(name="instanceCount/valueCount/stringcount", meaning="cached counts", where="registry.go")], ["Registry methods"])

p("C07", "Values are accepted iff representable and then stored unchanged",
  "A value is accepted for a metric type (at construction, for each instance, and on every later set) exactly when it is of the type's own Go type (strings of at most 255 bytes), or is an int the type, an integer type, can represent, or is a uint the type, an unsigned integer type, can represent, or is a float64 within the finite float32 range for a float metric; every other value is refused with an error and changes nothing. An accepted value reads back, from the metric and from the file, as the same number or text (rounded to float32 for float metrics) in the type's own Go type (as == compares them: the sign of a zero and the payload of a NaN are not part of the number).",
  ["inputs"], "all metric types and all Go values including boundaries, NaN, infinities, negative zero, unsupported kinds and out-of-range enumerators, at construction and on set, for singleton and instance metrics",
  "Tests enumerate about seventy hand-picked pairs against the compatibility predicate alone and do not exercise the setters, instances or the file with refused values.",
  ["metrics.go", "client.go"],
  [m("IsCompatible/resolve", "metrics.go"), m("setters", "metrics.go set/setInstance")], None, ["IsCompatible", "constructors, Set, SetInstance", "the mmv file"])

p("C08", "Counters and counter vectors never go backwards",
  "For any sequence of operations, every counter and every counter-vector instance holds its initial value plus the accepted increments (or the last accepted set), and its value never decreases: negative increments, sets below the current value and increments that would overflow are refused and change nothing. Vector operations touch only the named instance, the All forms touch every instance, and an unknown instance is an error.",
  ["histories", "inputs"], "all sequences of Set/Inc/Up/SetAll/IncAll/UpAll and Must forms with any int64 arguments, active or not",
  "Tests perform four operations with small positive numbers; overflow, long histories and vector error paths are not reached.",
  ["metrics.go"], [m("PCPCounter", "metrics.go"), m("PCPCounterVector", "metrics.go")], None, ["Val, returned errors"])

p("C09", "Gauges and gauge vectors follow exact float64 arithmetic per instance",
  "For any sequence of operations, a gauge (or gauge-vector instance) holds the float64 result of applying the accepted sets, increments and decrements in order, including infinities and NaN; an operation on one instance never affects another, the All forms affect every instance, and naming an unknown instance is an error that changes nothing.",
  ["histories", "inputs"], "all sequences of Set/Inc/Dec/SetAll/IncAll/DecAll and Must forms with any float64 arguments",
  "Tests perform three operations with small numbers on one gauge and one vector.",
  ["metrics.go"], [m("PCPGauge", "metrics.go"), m("PCPGaugeVector", "metrics.go")], None, ["Val, returned errors"])

p("C10", "Histogram statistics describe exactly the values recorded",
  "For any bounds, precision and sequence of recordings, the minimum, maximum, mean, variance, standard deviation, percentiles and buckets a histogram reports, and the five statistics in the file of an active client, are those of the multiset of values accepted so far, within the histogram's stated precision. A refused recording (out of range, or a negative number of times) changes nothing, reading statistics, percentiles or buckets changes nothing either; construction clamps bounds to 0..3,600,000,000 and precision to 1..5, rejects low above high, and High and Low report the highest and lowest allowed value.",
  ["histories", "inputs"], "all bounds, precisions and sequences of Record/RecordN, in and out of range",
  "The test records one fixed sequence on one configuration and never asks for bounds, percentiles, buckets or refused values.",
  ["metrics.go"], [m("PCPHistogram", "metrics.go"), m("normalize", "metrics.go")], None, ["Histogram accessors", "the mmv file"])

p("C11", "Timers accumulate exactly the time between start and stop",
  "For any sequence of Start, Stop and Reset, a timer's published total grows at each successful Stop by the real time since the matching Start expressed in the timer's unit, Stop returns that total, and only Reset sets it back to zero. Starting a started timer, stopping a stopped one and resetting a running one are refused and disturb neither the running interval nor the total.",
  ["histories"], "all call sequences over all six time units",
  "The test runs one start/stop in nanoseconds and compares the result only with itself.",
  ["metrics.go"], [m("PCPTimer", "metrics.go")], None, ["Stop results", "the mmv file"])

p("C12", "Composed units encode each dimension and scale faithfully",
  "Composing space, time and count units with any exponents from -8 to 7, in any order and from any starting unit (a dimension composed again takes its last exponent and scale), leaves the unit composed onto as it was and yields a 32-bit representation whose space, time and count exponents and scales decode to exactly those given and to zero for the rest; the order of different dimensions does not matter, base units have exponent one, the text form names every non-zero component with its exponent, and exponents outside the range panic.",
  ["inputs"], "all units, exponents and composition orders",
  "Tests check two compositions bit-exactly, both with exponents 1 and -1, and otherwise compare two compositions with each other.",
  ["metrics.go", "spaceunit_string.go", "timeunit_string.go", "countunit_string.go", "mmvdump/pcp.go"],
  [m("metricUnit.Space/Time/Count", "metrics.go"), m("Unit decoding", "mmvdump/pcp.go")], None, ["PMAPI, String, mmvdump.Unit"])

p("C13", "Metric strings register exactly the metric they spell",
  "A registration string of dotted identifiers with at most one bracketed instance list, separated by commas that one white-space character (space, tab, newline, form feed, carriage return) may follow, is accepted and yields the metric named by the identifiers outside the brackets, on the instance domain named by the part before them with exactly the listed instances (reusing a domain of that name only if its instances are the same set), or a plain single-valued metric when there is no list. Any other string is refused with an error.",
  ["inputs", "histories"], "all strings, and sequences of registrations that share or conflict on domains",
  "Tests parse eight well-formed strings and no malformed one, and register two.",
  ["registry.go", "instance_domain.go"], [m("parseString and its pattern", "registry.go"), m("MatchInstances", "instance_domain.go")], None, ["AddMetricByString, RegisterString"])

p("C14", "Identifiers depend only on names and are stable everywhere",
  "The ids of metrics, instance domains, instances and clients are a pure function of their names (the FNV-1a hash cut to 10, 22, 32 and 12 bits): the same in every client, every run and every process, in the objects and in the file, and within their bit width. Two different metrics or instance domains published by one client, and two instances of a domain, do not share an id.",
  ["inputs", "configurations"], "all names and sets of names, repeated runs and processes",
  "Tests never look at id values; they use ids only to find records.",
  ["speed.go", "metrics.go", "instance_domain.go", "instance.go", "client.go"], [m("hash", "speed.go"), m("id assignment", "metrics.go newpcpMetricDesc, instance_domain.go, instance.go, client.go")], None, ["ID()", "the mmv file"])

p("C15", "The dump reader survives any input",
  "For every byte sequence, decoding it either returns an error or a result holding every record its table of contents announces, and rendering that either returns an error or shows every one of them with all the texts, names and values it refers to; neither ever panics, hangs, reads outside the input or uses memory out of proportion to the input. Truncated, corrupted or still-being-written files are therefore safe to inspect.",
  ["inputs", "crash_points"], "all byte strings: random, truncated, bit-flipped and field-mutated images, versions 1, 2 and unknown, extreme counts, offsets and types",
  "Tests read five valid files.",
  ["mmvdump/mmvdump.go", "mmvdump/writer.go"], [m("length checks in read*", "mmvdump/mmvdump.go"), m("component lookups", "mmvdump/writer.go")], None, ["Dump, Write"])

p("C16", "The dump reader decodes and prints every valid image faithfully",
  "For every well-formed version 1 or 2 image, with sections in any order and position, decoding returns exactly the records it contains under their file offsets, with the types, units, semantics and section kinds that the package names, and the printed form lists every section entry, record, name, type, unit, description, instance and value with the content of the image, in file order. The command-line tool prints the same for a file, and an output that fails, once or for good, is reported as an error.",
  ["inputs"], "all well-formed images, both produced by this library and synthesised independently with arbitrary section order, gaps, types, units and values",
  "Tests compare five stored dumps; types, units, negative numbers, v2 images with instances and unusual section orders are not among them.",
  ["mmvdump/mmvdump.go", "mmvdump/writer.go", "mmvdump/pcp.go", "mmvdump/cmd/mmvdump/main.go"], [m("Dump", "mmvdump/mmvdump.go"), m("Write", "mmvdump/writer.go"), m("Unit.String, FixedVal", "mmvdump/pcp.go, mmvdump/mmvdump.go")], None, ["Dump, Write, mmvdump command output"])

p("C17", "Byte writer writes stay in bounds and encode little-endian",
  "Every write at any offset either stores exactly the little-endian encoding of its value at that offset, leaves every other byte alone and returns the offset just past it, or, when it would not fit between the start and the end of the buffer or the value has no fixed encoding, returns an error and changes nothing; the Must forms behave the same but panic on error. Concurrent writes to disjoint ranges all take effect.",
  ["inputs", "histories", "schedules"], "all values, types, offsets (negative and huge included), buffer sizes and sequences of writes",
  "Tests write four values at offset zero and one string; no failing write and no neighbouring byte is checked.",
  ["bytewriter/bytewriter.go"], [m("Write bounds check", "bytewriter/bytewriter.go"), m("WriteVal", "bytewriter/bytewriter.go")], None, ["Bytes(), return values"])

p("C18", "Concurrent updates are never lost and memory stays consistent",
  "When many goroutines update and read the metrics of an active client at once, every operation (on one metric or one instance; the All forms act instance by instance) behaves as if executed alone at some moment: counters end at their start plus all increments, gauges at the sum, counters are never seen going backwards, histograms count every recording, and afterwards the file holds exactly the final values. No such use is a data race.",
  ["schedules"], "all interleavings of updates, reads, percentile and bucket queries and file reads by many goroutines over shared metrics",
  "No existing test uses more than one goroutine or the race detector on updates.",
  ["metrics.go", "client.go", "bytewriter/bytewriter.go"], [m("per-metric mutex", "metrics.go")], None, ["Val, file", "race detector"])

p("C19", "Concurrent registration neither loses nor double-counts",
  "When several goroutines register metrics and instance domains in one registry, each name is accepted exactly once, metrics sharing a new domain are all accepted, the counts equal the accepted set, and a Start running at the same time publishes a valid image of exactly the registrations that were accepted, refusing later ones. No such use is a data race.",
  ["schedules"], "all interleavings of object and string registrations, queries and one Start",
  "No existing test registers from more than one goroutine.",
  ["registry.go", "client.go"], [m("registry locks", "registry.go"), m("mapped flag", "registry.go, client.go Start")], None, ["Registry counts", "the mmv file", "race detector"])

p("C20", "A live reader never sees a number that was never set",
  "A process reading the file of an active client while a numeric metric is being updated sees, for that metric or instance, only values it actually held at some time, never a mixture of the bytes of two of them; and a counter read repeatedly from the file never goes backwards.",
  ["schedules"], "all interleavings of one updating goroutine and one reader of the mapped file, for all numeric types",
  "Tests read the file only when nothing is being updated.",
  ["bytewriter/bytewriter.go", "metrics.go", "client.go"], [m("single copy of an aligned value", "bytewriter/bytewriter.go Write"), m("8-byte aligned layout", "client.go start")], None, ["concurrent mmap of the file"])

p("C21", "The file is created exactly where the PCP configuration says",
  "For any PCP configuration file and environment, a client named by a plain file name publishes to <root>/<PCP_TMP_DIR>/mmv/<name>, taking the root from PCP_DIR, the configuration from PCP_CONF or <root>/etc/pcp.conf, the last uncommented PCP_TMP_DIR assignment in it (everything after the equals sign, as it stands), and the system temporary directory when there is no such file or assignment; a variable that is set to nothing counts as set. Names that are not plain file names (empty, dot, dot-dot, or containing a path separator) are refused, and nothing is ever written or removed outside that mmv directory.",
  ["configurations", "inputs"], "all configuration texts, environment settings and client names",
  "Without a PCP installation the tests never parse a configuration; the name check is tried with one name.",
  ["config.go", "client.go", "bytewriter/memorymappedwriter.go"], [m("initConfig", "config.go"), m("mmvFileLocation", "client.go")], None, ["file system below a scratch directory"])

p("C22", "Clients in one process do not disturb each other",
  "Any number of clients, started, updated and stopped in any order or concurrently, each with its own registry, name and metrics, but possibly sharing instance domain objects or the built-in histogram domain, each publish a valid image of exactly their own metrics; an operation on one client or its metrics never changes the file, state or reported values of another.",
  ["histories", "schedules"], "all interleavings of operations on two to four clients",
  "Tests never have two clients alive at once.",
  ["client.go", "instance.go", "instance_domain.go", "speed.go", "metrics.go"], [m("instance offsets stored in shared domain objects", "client.go writeInstance, instance.go"), m("global histogram domain", "speed.go")], None, ["the mmv files"])

p("C23", "A failed or repeated start leaves nothing behind",
  "When Start cannot create its file (path blocked, directory not creatable, file-size, descriptor or memory limit, full disk) it returns an error, leaves no incomplete file at its place, the client stays inactive, can still register, and starts normally once the obstacle is gone. No failed Start, no repeated Start of an active client and no completed Start/Stop pair leaves an additional open file descriptor, memory mapping or goroutine behind, and removal failures at Stop are reported while the client still becomes inactive.",
  ["fault_sequences", "histories"], "all sequences of starts and stops with injected file-system failures at each step of file creation and removal",
  "No test makes a file operation fail or counts descriptors.",
  ["client.go", "bytewriter/memorymappedwriter.go"], [m("error paths", "bytewriter/memorymappedwriter.go"), m("Start/Stop", "client.go")], None, ["returned errors", "/proc/self/fd, /proc/self/maps"])

p("C24", "An instance domain is the set of its instances",
  "An instance domain built from any list of names contains exactly the distinct names given: membership, count, listing and set comparison agree with the mathematical set, whatever the order or repetition in the list or in the compared list, and those lists are left as they were. Instance metrics can be built on it exactly when values for precisely those instances are given, report exactly those instances, and reject any other instance name on read and write; empty domain names, instance names or descriptions longer than 255 bytes and more than two descriptions are refused.",
  ["inputs"], "all name lists with repetitions, orders, empty names, lengths around the limit, and value maps with missing or extra instances",
  "Tests build four domains without repetitions and never compare sets or pass mismatching values.",
  ["instance_domain.go", "instance.go", "metrics.go"], [m("NewPCPInstanceDomain/MatchInstances", "instance_domain.go"), m("newpcpInstanceMetric", "metrics.go")], None, ["InstanceDomain and InstanceMetric methods"])

p("C25", "Starting and stopping under concurrent updates is safe",
  "Updates and reads of metrics racing with Start and Stop of their client never crash, block forever or race, and take effect on the metric; once Start has returned and updates are quiet the file holds every metric's current value, and once Stop has returned no later update alters the kept file.",
  ["schedules"], "all interleavings of updating goroutines with repeated Start and Stop",
  "No test updates a metric while its client starts or stops.",
  ["client.go", "metrics.go"], [m("update closure installation and invalidation", "client.go writeSingletonMetric/writeInstanceMetric/Stop, metrics.go newupdateClosure")], None, ["the mmv file", "process survival", "race detector"])

p("C26", "A memory-mapped writer and its file are always the same bytes",
  "Opening a memory-mapped writer on any path replaces an existing file by a zeroed one of exactly the requested size (creating missing directories), every successful write is immediately visible to anyone reading the file, and after unmapping the file keeps exactly the last bytes or is removed if so asked. A failed open reports an error, and a write after unmapping reports an error instead of crashing.",
  ["histories", "inputs"], "all sizes, pre-existing contents, write sequences and unmap modes",
  "The test maps one small file and writes once.",
  ["bytewriter/memorymappedwriter.go", "bytewriter/bytewriter.go"], [m("NewMemoryMappedWriter/Unmap", "bytewriter/memorymappedwriter.go")], None, ["file content", "Bytes()"])

p("C27", "Calls that change a client's state take effect one at a time",
  "When several goroutines call Start, Stop, SetFlag, Register, HasMetric or MetricCount on one client, or on two clients that share a registry (whether or not they also share a name), every call behaves as if it happened at one instant between its call and its return: at most one of the clients is active at any time, a Start is refused only while the other client is active, a Stop succeeds exactly when its client is active, registrations and flag changes are accepted exactly while no client of the registry is active, and each file holds exactly the metrics and flags of the moment its client was last started, with the values of the moment it was last stopped (or is gone, with EraseFileOnStop). No file descriptor or mapping is left once all are stopped.",
  ["schedules", "histories"], "all interleavings of life-cycle calls and registrations by several goroutines on one or two clients of one registry",
  "Tests start and stop clients from one goroutine only.",
  ["client.go", "registry.go"], [m("the client's mutex and the registry's mapped flag", "client.go Start/Stop/SetFlag, registry.go setMapped/isMapped"), m("the check of a rival client", "client.go Start")], None, ["results of the calls", "the mmv files"])

for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
