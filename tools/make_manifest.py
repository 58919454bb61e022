#!/usr/bin/env python3
"""Writes MANIFEST.json. Properties in TODO have no check yet."""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
TECH = "deterministic simulation with fault injection: "
RUST = ("Seeded search over real threads run one at a time under a simulator that owns every switch; the real "
        "library code, instrumented, against an independent reference model over golden Unicode data. No proof: what "
        "the search does not reach is not covered. Assumes sequentially consistent memory; code inside the "
        "precompiled std is not preempted except at its system calls.")
PYN = ("Seeded search over runs of the real extension module in the real CPython 3.12 with every thread switch, fault "
       "and collection chosen by the simulator; the answers come from an independent model over golden Unicode "
       "data. No proof. Collections inside allocations, which CPython 3.10 and 3.11 do and 3.12 does not, are injected.")
CHECKS = {
    "C01": ("seeded schedules of concurrent queries and builders, stalls, clock jumps, against a reference model", RUST),
    "C02": ("seeded schedules with failing allocations (panicking alloc-error handler) inside queries and expansions", RUST),
    "C03": ("seeded schedules of concurrent reads of a shared interval set, failing sinks and allocations, against a reference model", RUST),
    "C04": ("seeded histories of iterator operations from several threads with failing and panicking callbacks, against a reference model", RUST),
    "C05": ("seeded schedules of category expansion over streams that fail, panic, re-enter or stall", RUST),
    "C06": ("seeded schedules of rendering into sinks that fail, truncate, panic, re-enter or stall", RUST),
    "C07": ("threads stalled for good at seeded steps; every other call must finish within a bounded number of steps", RUST),
    "C08": ("each run repeated under other clocks, entropy, environment, schedules and thread counts; results must not differ", RUST),
    "C09": ("seeded interpreter schedules of category listing with collections, failures and re-entrancy; tuple identity over the history", PYN),
    "C10": ("collections, thread switches, re-entrant calls, failures and forks injected at seeded allocations of the listing call; bounded completion", PYN),
    "C11": ("seeded interpreter schedules of concurrent Python calls against a reference model", PYN),
    "C12": ("iterables that raise, switch threads, re-enter, mutate or misreport their length at seeded positions", PYN),
    "C13": ("the n-th interpreter allocation of a call made to fail; outcome, repetition, live allocations and reference counts checked", PYN),
    "C14": ("the real script against simulated network, tool and file system with seeded faults and a crash at any operation",
            "Seeded search over fault and crash sequences of the real generate_tables.py run in a scratch directory with its network and "
            "tool calls simulated and every file operation a fault or crash point. Process death, not power loss."),
    "C15": ("calls nested at seeded points inside other calls: in allocations, releases, destructors, streams, sinks and the panic hook", RUST),
}
NA = "a function of its input alone: no schedule, time, I/O, randomness or fault for the property to depend on, so simulation would only be input sampling"
NOT_APPLICABLE = {p: NA for p in ("P20", "P21", "P22", "P23", "P24", "P25")}
TODO = set(sys.argv[1:])
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
        "technique": TECH + t, "level": "exploration", "level_note": n,
    } for p, (t, n) in CHECKS.items() if p not in TODO],
    "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE.items()]
    + [{"property": p, "reason": "no check built yet"} for p in CHECKS if p in TODO],
    "notes": "No hooks in /repo: the seams are the linker (interposed C library calls), the compiler's coverage instrumentation "
             "and the interpreter's own interfaces. Repairs of genuine defects are the commits starting with fix:, see known_findings.txt.",
}, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
