#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
    "C20": "a pure function of one string: no schedule, time, I/O, fault or history can change its outcome, so simulating executions adds nothing to it (the conversions the simulated histories use are compared with the model in C01)",
    "C21": "a pure predicate over one value, without concurrency, time, I/O or history to simulate (the restrictions used in simulated histories are compared with the model in C01, C09)",
    "C22": "a compile-time property: nothing is executed that a simulator could schedule or disturb",
    "C23": "a compile-time property of type computations: nothing is executed that a simulator could schedule or disturb",
}
BASE = "Seeded search, not exhaustive: %s. Assumes the reference model in sim/model.cpp and glibc stdio on the simulated source; 18 option sets x 3 error modes are instantiated."
NOTE = {
    "C01": "every step of generated histories over generated data is compared with the reference model",
    "C02": "each history is executed under five deliveries and the observed histories must be equal",
    "C03": "read, open and close failures at generated offsets, every step compared with the model",
    "C04": "allocation failures and stale errno at generated points; no bad_alloc without a failed allocation, rows afterwards are genuine, in order and not repeated",
    "C05": "malformed and rejected rows are mixed with good ones; every step compared with the model",
    "C06": "each history is executed in the three error modes and must agree; error texts are compared with the model",
    "C07": "line and position compared with the model after every call, reading is broken off and resumed at generated points",
    "C08": "header operations at generated points of the stream, with malformed headers and allocation failures, compared with the model",
    "C09": "chains with generated alternatives and callback results, values and callback order compared with the model",
    "C10": "exceptions of five kinds from generated invocations of user code, the continuation compared with the model",
    "C11": "moves, assignments and swaps at generated points, compared with the same history without them; handles and allocations are counted",
    "C12": "views are held across all calls that do not read and compared with a copy, buffers grow at every length; ASan watches reads",
    "C13": "2-4 tasks under a seeded scheduler switching at reads, allocations, callbacks and calls; each history must equal the solo one",
    "C14": "CPU watchdog per run, line and eof must advance per call, end of file must be stable",
    "C15": "arbitrary bytes, calls and faults under ASan+UBSan with allocation and handle accounting",
    "C16": "the same seeds run against the modular headers, the committed single header and (if it differs) the generated one; histories must be equal",
    "C17": "iteration styles and request styles mixed over one stream, compared with the model and with plain requests",
    "C18": "sequences of lines on one reused converter or splitter compared with a fresh one per line",
    "C19": "bytes taken from the source and memory held are compared with bounds derived from the rows read so far, in long streams",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py run " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py run " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection: seeded search over histories, deliveries, faults" + (" and schedules" if i == "C13" else ""),
        "level": "exploration",
        "level_note": BASE % NOTE[i],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in props if p["id"] in NA],
    "notes": "No hooks in /repo: the library's seams (fopen and stdio underneath it, malloc, user code called back) are taken over at link time. /repo has fix: commits only.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
