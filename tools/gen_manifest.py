#!/usr/bin/env python3
"""Source of MANIFEST.json. Run: python3 /verif/tools/gen_manifest.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "seeded simulation: writers refuse at drawn bytes; result and accepted bytes judged against a reference rendering",
 "C02": "seeded simulation: streams fail at drawn events; result and event log judged against a reference stream",
 "C03": "seeded simulation: serializers fail at drawn calls; result and call log judged against a reference serialization",
 "C04": "seeded simulation: visitors fail with their own error; calls and returned error judged against a reference visit",
 "C05": "seeded simulation: sources fail once or lastingly at drawn steps of formatting, streaming, filling; output judged as leading part",
 "C06": "seeded simulation: sources fail at drawn steps of buffering; every later handle judged against a model of failed marks",
 "C07": "seeded simulation: sources mutate and die at scheduled instants around buffering; handles judged against the recorded snapshot",
 "C08": "seeded simulation: scheduled threads clone, share and drop handles; drop instants, evaluations and memory judged against a reference count model",
 "C09": "seeded simulation: scheduled threads and re-entrant callbacks interleave inspections; each judged against its solo result, plus deadlock detection",
 "C10": "seeded simulation: user code and consumers panic at drawn steps; all handles re-inspected, drops and memory accounted",
 "C11": "seeded simulation: the n-th allocation of an operation fails and unwinds; all handles re-inspected, drops and memory accounted",
 "C12": "seeded simulation: sources deliver text in drawn fragments around buffer limits, interleaved and re-entered; judged against the concatenation",
 "C13": "seeded simulation: elements fail at drawn steps during extraction across handle histories; slots judged against a reference extraction",
 "C14": "seeded simulation: scheduled threads pass handles through drawn histories; every inspection judged against the reference content",
 "C15": "seeded simulation: sources change at scheduled instants between and during inspections; each judged against the source's state then, evaluations counted",
 "C16": "seeded simulation: lent references are kept through drawn histories of drops, clones and memory reuse on scheduled threads and re-read later",
}
NA = {
 "C20": "Pure function of one primitive value: no stream, schedule, fault or second party exists for a simulator to vary; only input generation would remain.",
 "C21": "Decided by the static type of the captured value in a single call: no schedule, fault or history can change the answer.",
 "C22": "Pure function of formatter flags and the value in one call; writer faults during rendering are covered by C01, the flags themselves leave nothing to simulate.",
 "C23": "A compile-time fact (type sizes and auto traits): nothing executes, so nothing can be scheduled or failed.",
}
NOTE = ("Sampled, not exhaustive: a seeded search over histories, schedules and faults against the real library in three feature configurations, "
        "with a hand-written reference model as oracle. Trusts the reference model, the stubbed user values and consumers, and std. "
        "Threads switch at callbacks, sink calls, allocations, frees, and at branches and memory accesses of the library; weak memory is not modelled.")
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
             "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration", "level_note": NOTE} for p, t in T.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "No hooks in /repo: captured values, consumers, the allocator and threads are all supplied by the caller of the library, so every seam exists already. "
          "Replay a violation with: python3 check.py --replay <file>.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
