#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties the harness implements."""
import json, re, glob, subprocess
impl = set()
for f in glob.glob('/verif/harness/p_*.go'):
    impl |= set(re.findall(r'ID: *"(C\d\d)"', open(f).read()))
N = {
 "C01": ("property-based testing: random registries, strict independent MMV parser as oracle", "Thousands of generated registries per run are published and parsed by a parser written from the MMV format, not from the code. Trusts that parser; sizes are bounded (about 30 registrations a case)."),
 "C02": ("property-based testing: random registries, model of the registrations compared with the decoded file", "Every record of the file is matched one to one with the model. Texts contain no NUL bytes."),
 "C03": ("stateful property-based testing: update histories against a reference model, byte diff of the file", "Sequential histories of up to some 40 operations; concurrency is C18 and C20."),
 "C04": ("stateful property-based testing: client life-cycle histories against a state-machine model", "Histories of registrations, updates, starts and stops, run in a worker process so that faults on removed mappings are caught."),
 "C05": ("property-based testing with schedule search: a poller reads the file while generated registries start", "Statistical over instants: the poller maps or reads the file as fast as it can during each start; a window of a few nanoseconds can be missed. The old file is held open and compared across restarts."),
 "C06": ("stateful property-based testing: registration histories against a set model", "Valid and invalid, repeated and conflicting registrations through objects and strings."),
 "C07": ("property-based testing: (type, value) pairs with boundary bias against math/big representability", "All metric types and all kinds of Go values including boundaries; read back from metric and file."),
 "C08": ("stateful property-based testing: counter histories against an exact integer model", "Sequential histories; concurrency is C18."),
 "C09": ("stateful property-based testing: gauge histories against float64 arithmetic", "Bit-exact comparison after each operation."),
 "C10": ("stateful property-based testing: differential with hdrhistogram plus naive multiset statistics", "Trusts hdrhistogram for the exact figures and the naive multiset statistics for the precision claim."),
 "C11": ("stateful property-based testing with bracketing monotonic clocks", "Elapsed time is known to lie between two clock readings around the calls; the tolerance is that bracket."),
 "C12": ("property-based testing: unit compositions against a bit-field model", "Each dimension is composed at most once per case."),
 "C13": ("grammar-based property testing: generated and mutated strings against a hand-written parser", "Both accepted and refused strings, and conflicts with existing domains."),
 "C14": ("property-based testing: names against an independent FNV-1a, across clients and processes", "Metric ids have ten bits, so distinct names can collide: listed as a known finding."),
 "C15": ("fuzzing: mutated MMV images and raw bytes, crash/hang/allocation oracle", "Inputs lie against guard pages, allocation is measured, hangs are timed out."),
 "C16": ("property-based testing: synthesised images against an independent decoder and renderer", "v1 and v2 images with sections anywhere; also through the command-line tool."),
 "C17": ("stateful property-based testing: write sequences against a shadow slice", "All writers, offsets from far negative to far beyond the end, concurrent disjoint writes."),
 "C18": ("property-based testing of concurrent programs under the race detector", "Schedules are those the Go scheduler produces for the generated programs; not exhaustive."),
 "C19": ("property-based testing of concurrent registrations under the race detector", "Schedules are those the Go scheduler produces for the generated programs; not exhaustive."),
 "C20": ("property-based testing with schedule search: mapped reader against an updater", "Statistical over instants; the reader maps the file and reads the slot with single loads."),
 "C21": ("property-based testing: generated configurations, environments and names, one process per case", "Own reader of the configuration format; the scratch tree is compared before and after."),
 "C22": ("stateful property-based testing: several clients, per-client models", "Two to four clients in one process, sequential histories and concurrent starts."),
 "C23": ("generated fault injection: every failing step of creating the file, against a state model", "Faults: blocked paths, unusable directories, file-size limits, removal failures; descriptors and mappings counted."),
 "C24": ("property-based testing: name lists against a set model", "All orders, repetitions and lengths around the limits."),
 "C25": ("property-based testing of start/stop cycles with concurrent updates under the race detector", "Schedules are those the Go scheduler produces; not exhaustive."),
 "C26": ("stateful property-based testing: mapped writer against a shadow slice and the file", "Sizes, old contents, missing directories, all unmap modes."),
 "C27": ("property-based testing of concurrent programs: linearizability of life-cycle calls under the race detector", "Schedules are those the Go scheduler produces for the generated programs; not exhaustive."),
}
checks, na = [], []
for l in open('/verif/properties.jsonl'):
    i = json.loads(l)["id"]
    if i in impl:
        t, n = N[i]
        checks.append(dict(property=i, quick_cmd="./check "+i, thorough_cmd="./check %s --tier thorough" % i,
            technique=t, level="fault_enumeration" if i == "C23" else "exploration", level_note=n))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
    notes="One harness (/verif/harness), public API only, no hooks in /repo. ./check ID --replay FILE repeats a failure; see DESIGN.md."),
    open('/verif/MANIFEST.json','w'), indent=1)
print(len(checks), "checks", len(na), "missing")
