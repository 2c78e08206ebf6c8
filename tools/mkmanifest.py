"""Regenerate MANIFEST.json from the table below (run after adding a property module)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": ("runtime monitor of call start/end order under a controlled scheduler and real threads", "exploration"),
    "C02": ("differential runtime monitor: argument and output identity against direct evaluation", "exploration"),
    "C03": ("model-based runtime monitor over store histories: outputs and contents against from-scratch evaluation", "exploration"),
    "C04": ("execution-count monitor against the dependency closure, with failures and retries", "exploration"),
    "C05": ("monitor of executions, reads and writes against a declarative out-of-date oracle; repeat-run probe", "exploration"),
    "C06": ("failure-injection monitor: nothing downstream starts, CallError identity and provenance", "exploration"),
    "C07": ("termination, thread-leak and cycle monitor under a deadlock-detecting scheduler and real threads", "exploration"),
    "C08": ("cut injection at every call and store operation, process death by interposed libc calls, repair oracle", "fault_enumeration"),
    "C09": ("online event-order monitor over writes, reads and call starts with value-marking stores", "exploration"),
    "C10": ("concurrency high-water mark, rendezvous, error-budget and attempt-count monitors", "exploration"),
    "C11": ("fault enumeration over every libc file operation of a write (errno, short write, SIGKILL)", "fault_enumeration"),
    "C12": ("round-trip and modified-time monitor over generated values of each store's domain", "exploration"),
    "C13": ("structural snapshot comparison around runs, dry runs and renders, incl. concurrent runs", "exploration"),
    "C14": ("twin-world differential monitor: dry-run plan executed by itself against the real run", "exploration"),
    "C15": ("online protocol monitor of observer notifications and final accounting", "exploration"),
    "C16": ("weak-reference liveness monitor at call starts under controlled and real schedules", "exploration"),
    "C17": ("KeyboardInterrupt injection (real SIGINT and at controlled scheduling points) with trace monitors", "exploration"),
    "C18": ("metamorphic monitor: decisions across zones and naive/aware forms against an instant-based oracle", "exploration"),
    "C19": ("generated user programs with known lines; monitor of CallError.call stack frames and message", "exploration"),
    "C20": ("display monitor: bundled observers driven by legal notification histories in virtual time", "exploration"),
}
NOTE = ("Held on every monitored execution of the stated workloads; not a proof. Assumes the workload functions and the "
        "instrumentation below uberjob (threading primitives, libc interposition) are faithful, and CPython's GIL semantics.")
checks = []
na = []
for p, (tech, level) in TECH.items():
    if os.path.exists(os.path.join(ROOT, "rv", "props", p.lower() + ".py")):
        checks.append({
            "property": p,
            "quick_cmd": f"python3 check.py {p}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
            "technique": tech,
            "level": level,
            "level_note": NOTE,
        })
    else:
        na.append({"property": p, "reason": "the check is still being built"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all instrumentation wraps the Python runtime from outside. known_findings.jsonl lists repaired defects."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed yet")
