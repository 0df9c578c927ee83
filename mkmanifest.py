#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json
CONC = ("seeded schedules, allocator reuse, clock faults and panics explored over the real compiled crates; "
        "one baton-holding thread at a time, every instrumented atomic, plain access and memcpy is a scheduling point. "
        "Sequentially consistent execution (C14 adds a happens-before race check that honours the requested orderings); "
        "search, not exhaustion. Trusts the TSan instrumentation pass, the harness oracle and uninstrumented std code.")
IO = ("seeded fragmentation, interruption, I/O error, truncation, corruption, growth and crash points explored over the real "
      "exposition, arrow, parquet, rmp-serde and serde_json code; search, not exhaustion. Trusts the parquet reader used as oracle.")
T = "deterministic simulation with fault injection: "
tech = {
 "C01": "seeded thread schedules + linearizability check against a reference counter",
 "C02": "seeded thread schedules + linearizability check against a reference gauge",
 "C03": "seeded thread schedules + conservation and per-bucket bounds over recorded histories",
 "C04": "seeded thread schedules + linearizability check against a reference register of bucket arrays",
 "C05": "seeded thread schedules incl. slow initialisers + exactly-once and sharing oracle",
 "C06": "seeded thread schedules with initialiser panics + observer-order oracle",
 "C07": "seeded thread schedules with address reuse + linearizability check against a reference set",
 "C08": "seeded thread schedules with poisoning allocator + destructor/free invariants",
 "C09": "seeded thread schedules with injected panics + bounded-progress and deadlock detection",
 "C10": "seeded walks and schedules + comparison of all walks with the reference sequence",
 "C11": "seeded thread schedules with address reuse + per-entry reference model",
 "C12": "seeded thread schedules with snapshots + membership linearizability oracle",
 "C13": "seeded thread schedules with clock faults + value history and clock-reading oracle",
 "C14": "seeded thread schedules + vector-clock happens-before invariant on every access",
 "C15": "seeded fragmentation, interruption and cuts of recorded streams + decode oracle",
 "C16": "seeded recordings, fragmentation and hash seeds + reference table oracle",
 "C17": "seeded I/O error, truncation, corruption and growth injection + error/success oracle",
 "C18": "seeded crash points with lost or torn writes + reader-rejects-or-complete oracle",
 "C19": "seeded metadata orders, formats and hash seeds + reference column-name model",
 "C20": "simulated file system with seeded faults at the libc boundary + path/handle equivalence oracle",
 "C24": "seeded thread schedules and panics over rounds of register-use-drop + accounting of the simulated allocator, destructor counting",
 "C25": "seeded I/O faults over repeated conversions + accounting of descriptors, files and allocations, peak memory of short and long recordings compared",
 "C23": "seeded thread schedules, hash seeds and address reuse + reference text compared label by label",
 "C21": "simulated process, clock and disk with seeded crashes + end-to-end reference history",
}
import os, sys
avail = ["C%02d" % i for i in range(1, 15)] + ["C23", "C24"]
here = os.path.dirname(os.path.abspath(__file__))
if os.path.exists(os.path.join(here, "sim/build_simio.sh")):
    avail += ["C%02d" % i for i in range(15, 22)] + ["C25"]
na = [
 {"property": "C22", "reason": "Behaviour of a proc macro at compile time: no schedule, clock, I/O, randomness or fault for the outcome to depend on, so there is nothing to simulate. (That statically declared metrics appear once with their own data at run time is part of C10 and C11.)"},
]
for i in range(15, 22):
    p = "C%02d" % i
    if p not in avail:
        na.append({"property": p, "reason": "engine under construction"})
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "none", "enable": "no hook was needed: the seams are the TSan instrumentation pass, libc interposition and the generic Read/Write/Seek parameters", "source_commits": []},
 "checks": [{
   "property": p,
   "quick_cmd": f"bash check.sh {p}",
   "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p}",
   "technique": T + tech[p],
   "level": "exploration",
   "level_note": IO if 15 <= int(p[1:]) <= 21 or p == "C25" else CONC,
 } for p in sorted(avail)],
 "not_applicable": na,
 "notes": "Known and fixed findings: /verif/known-findings.txt. Replay a violation with 'bash replay.sh <file>'.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
