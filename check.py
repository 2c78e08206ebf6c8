#!/usr/bin/env python3
"""Run the monitors of one property: check.py C07 [--replay N] [--cases N] [--workers N]

Environment: VERIF_SEED, VERIF_TIER (quick | thorough).
Exit 0: every monitored execution satisfied the property.
Exit 1: VIOLATION line(s).  Exit 2: the check itself could not decide.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
VENV_PY = "/opt/venv/bin/python"
HANG_QUIET = 25.0  # seconds without progress before looking for a deadlock
HANG_BUSY = 240.0  # seconds without progress while still consuming CPU


class Worker:
    def __init__(self, run, wid, mode, start):
        self.run = run
        self.wid = wid
        self.mode = mode
        self.next = start
        self.proc = None
        self.buf = b""
        self.current = None
        self.last = time.time()
        self.cpu_mark = None
        self.finished = False
        self.restarts = 0
        self.spawn()

    def spawn(self):
        run = self.run
        r, w = os.pipe()
        env = dict(os.environ)
        env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.environ.get("RV_SRC", "") + os.pathsep + ROOT if os.environ.get("RV_SRC") else ROOT, RV_DEADLINE=str(run.deadline))
        env.setdefault("TZ", "UTC")
        env.pop("PYTHONHOME", None)
        self.err = tempfile.TemporaryFile()
        scratch = os.path.join(run.scratch, f"w{self.wid}-{self.restarts}")
        os.makedirs(scratch, exist_ok=True)
        env["TMPDIR"] = scratch
        if run.shim:
            env["LD_PRELOAD"] = env["RV_SHIM"] = run.shim
        self.proc = subprocess.Popen(
            [VENV_PY, "-m", "rv.worker", run.prop, str(run.seed), run.tier, str(self.next), str(run.stride),
             str(run.end), self.mode, str(w), scratch],
            pass_fds=(w,), env=env, cwd=ROOT, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err,
            start_new_session=True,
        )
        os.close(w)
        self.fd = r
        os.set_blocking(r, False)
        self.buf = b""
        self.last = time.time()
        self.cpu_mark = None
        self.current = None

    def read(self):
        try:
            data = os.read(self.fd, 1 << 20)
        except BlockingIOError:
            return
        if not data:
            self.eof()
            return
        self.last = time.time()
        self.cpu_mark = None
        self.buf += data
        *lines, self.buf = self.buf.split(b"\n")
        for line in lines:
            self.message(json.loads(line))

    def message(self, m):
        if "b" in m:
            self.current = m["b"]
            self.next = m["b"]
        elif "e" in m:
            self.run.case_done(m, self.mode)
            self.next = m["e"] + self.run.stride
            self.current = None
        elif "done" in m:
            self.finished = True
        elif "timeup" in m:
            self.run.timeup = True
            self.finished = True

    def stderr(self):
        self.err.seek(0, 2)
        n = self.err.tell()
        self.err.seek(max(0, n - 6000))
        return self.err.read().decode("utf-8", "replace")

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def eof(self):
        os.close(self.fd)
        self.kill_group_leftovers()
        rc = self.proc.wait()
        if self.finished:
            self.fd = None
            return
        if rc not in (78, 79):
            # A crash of the interpreter is never an acceptable outcome; report it as undecided.
            self.run.errors.append(f"worker {self.wid} died with {rc} in case {self.current}: {self.stderr()[-1500:]}")
            if self.current is not None:
                self.next = self.current + self.run.stride
        self.respawn()

    def kill_group_leftovers(self):
        self.proc.wait()
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass

    def respawn(self):
        self.restarts += 1
        if self.next >= self.run.end or self.run.stop or self.restarts > 40:
            self.fd = None
            self.finished = True
            return
        self.spawn()

    def cpu(self):
        try:
            with open(f"/proc/{self.proc.pid}/stat") as f:
                parts = f.read().rsplit(")", 1)[1].split()
            return int(parts[11]) + int(parts[12])
        except OSError:
            return None

    def threads_asleep(self):
        try:
            for tid in os.listdir(f"/proc/{self.proc.pid}/task"):
                with open(f"/proc/{self.proc.pid}/task/{tid}/stat") as f:
                    if f.read().rsplit(")", 1)[1].split()[0] != "S":
                        return False
            return True
        except OSError:
            return False

    def check_hang(self):
        now = time.time()
        quiet = now - self.last
        if self.current is None or quiet < HANG_QUIET:
            return
        if self.cpu_mark is None:
            self.cpu_mark = (now, self.cpu())
            return
        t0, c0 = self.cpu_mark
        c1 = self.cpu()
        if c1 is None or c0 is None:
            return
        if now - t0 >= 8:
            used = (c1 - c0) / os.sysconf("SC_CLK_TCK")
            if used <= 0.15 and self.threads_asleep():
                self.hang("deadlock")
            elif quiet > HANG_BUSY:
                self.hang("livelock")
            else:
                self.cpu_mark = (now, c1)

    def hang(self, kind):
        try:
            os.kill(self.proc.pid, signal.SIGUSR1)
            time.sleep(0.5)
        except OSError:
            pass
        stacks = self.stderr()
        index = self.current
        self.kill()
        os.close(self.fd)
        self.run.case_done(
            {"e": index, "v": [{"what": f"hang: no progress for {int(time.time() - self.last)} s ({kind})",
                                "mechanism": "hang", "data": {"stacks": stacks[-5000:]}, "notes": {}}],
             "c": {}, "k": [], "s": []}, self.mode)
        self.next = index + self.run.stride
        self.respawn()


class Run:
    def __init__(self, prop, seed, tier, cases=None, workers=8, index=None, mode=None):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.mod_info = load_info(prop)
        self.stride = workers
        n = cases if cases is not None else self.mod_info["CASES"][tier]
        self.end = n
        budget = self.mod_info["BUDGET"][tier]
        self.deadline = time.time() + budget
        self.errors = []
        self.violations = []
        self.first = None  # when the first violation was seen
        self.counts = collections.Counter()
        self.keys = set()
        self.samples = []
        self.evaluations = 0
        self.aborts = 0
        self.by_mode = collections.Counter()
        self.timeup = False
        self.stop = False
        self.scratch = tempfile.mkdtemp(prefix=f"rv-{prop}-")
        self.t0 = time.time()
        self.only = index
        self.shim = None
        if self.mod_info["SHIM"]:
            self.shim = os.path.join(self.scratch, "faultshim.so")
            subprocess.run(["gcc", "-shared", "-fPIC", "-O2", "-o", self.shim, os.path.join(ROOT, "rv", "faultshim.c"), "-ldl"], check=True)

    def case_done(self, m, mode):
        if "error" in m:
            self.errors.append(f"case {m['e']}: {m['error']}")
            return
        if "abort" in m:
            self.aborts += 1
            return
        self.evaluations += 1
        self.by_mode[mode] += 1
        self.counts.update(m["c"])
        self.keys.update(hashlib.blake2b(k.encode("utf-8", "replace"), digest_size=8).digest() for k in m["k"])
        if m["s"] and len(self.samples) < 6:
            self.samples.extend(m["s"][:2])
        for v in m["v"]:
            v["case"] = m["e"]
            v["mode"] = mode
            self.violations.append(v)
        if m["v"] and self.first is None:
            self.first = time.time()
        if len(self.violations) >= 25:
            self.stop = True

    def go(self):
        det = self.mod_info["DET_WORKERS"]
        ws = []
        try:
            if self.only is not None:
                start = self.only
                self.end = start + 1
                wid = start % self.stride
                ws = [Worker(self, wid, "det" if wid < det else "os", start)]
            else:
                ws = [Worker(self, i, "det" if i < det else "os", i) for i in range(self.stride) if i < self.end]
            while True:
                live = [w for w in ws if w.fd is not None and not (w.finished and w.proc.poll() is not None and not w.buf)]
                live = [w for w in live if w.fd is not None]
                if not live or self.stop:
                    break
                if self.first is not None and time.time() - self.first > 20:
                    break  # enough to report
                r, _, _ = select.select([w.fd for w in live], [], [], 1.0)
                for w in live:
                    if w.fd in r:
                        w.read()
                for w in live:
                    if w.fd is not None and not w.finished:
                        w.check_hang()
                for w in live:
                    if w.finished and w.fd is not None and w.fd not in r and w.proc.poll() is not None:
                        os.close(w.fd)
                        w.fd = None
        finally:
            for w in ws:
                if w.proc.poll() is None:
                    w.kill()
            shutil.rmtree(self.scratch, ignore_errors=True)


def load_info(prop):
    """Read the property's settings without importing uberjob into this process."""
    import ast

    path = os.path.join(ROOT, "rv", "props", f"{prop.lower()}.py")
    info = {"DET_WORKERS": 5, "BUDGET": {"quick": 420, "thorough": 5400}, "HANG": "violation", "MIN": {}, "ASSUMPTIONS": [],
            "LEVEL": "exploration", "RULE": "", "SHIM": False, "CASES": {"quick": 400, "thorough": 8000}}
    with open(path) as f:
        tree = ast.parse(f.read())
    for st in tree.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            name = st.targets[0].id
            if name in info:
                info[name] = ast.literal_eval(st.value)
    return info


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("status") == "known":
                        out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay", type=int, help="run only this case index (several times)")
    ap.add_argument("--times", type=int, default=1)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    if a.replay is None:
        import glob
        for f in glob.glob(os.path.join(ROOT, "evidence", "replay", f"{prop}-*.json")):
            os.unlink(f)
    runs = []
    for k in range(a.times if a.replay is not None else 1):
        run = Run(prop, seed, tier, cases=a.cases, workers=a.workers, index=a.replay)
        run.go()
        runs.append(run)
        if run.violations:
            break
    run = runs[-1]
    info = run.mod_info
    wall = time.time() - t0

    violations = []
    undecided = list(run.errors)
    known = known_findings(prop)
    known_hit = set()
    for v in run.violations:
        if v["mechanism"] == "hang" and info["HANG"] != "violation":
            undecided.append(f"case {v['case']}: {v['what']} {json.dumps(v['data'])[:1500]}")
            continue
        hit = next((k for k in known if k["match"] in (v["mechanism"] + " :: " + v["what"])), None)
        if hit is not None:
            known_hit.add(hit["match"])
            continue
        violations.append(v)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    if a.replay is None:
        for name, least in info["MIN"].items():
            least = least if run.end >= info["CASES"][tier] and not run.stop else 0
            have = len(run.keys) if name == "distinct" else run.counts.get(name, 0)
            if have < least and not violations:
                undecided.append(f"the monitors observed too little: {name}={have}, expected at least {least}")
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        evidence = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": info["LEVEL"],
            "coverage": {
                "evaluations": run.evaluations,
                "distinct_nontrivial": len(run.keys),
                "rule": info["RULE"],
                "samples": run.samples[:6] or ["(none recorded)"],
                "observed": dict(sorted(run.counts.items())),
                "executions_by_mode": dict(run.by_mode),
                "cases_planned": run.end,
                "stopped_by_time_budget": run.timeup,
                "not_applicable_cases": run.aborts,
                "undecided": undecided[:5],
            },
            "assumptions": info["ASSUMPTIONS"],
            "wall_s": round(wall, 2),
            "violations": len(violations),
        }
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print(f"{prop} {tier} seed={seed}: {run.evaluations} executions, {len(run.keys)} distinct non-trivial, "
          f"{len(violations)} violations, {len(undecided)} undecided, {wall:.1f} s")
    obs = ", ".join(f"{k}={v}" for k, v in sorted(run.counts.items()))
    print(f"  observed: {obs}")
    if violations:
        rdir = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        by_mech = {}
        for v in violations:
            by_mech.setdefault(v["mechanism"], v)
        for n, (mech, v) in enumerate(list(by_mech.items())[:5]):
            path = os.path.join(rdir, f"{prop}-{seed}-{v['case']}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, "case": v["case"], "mode": v["mode"],
                           "replay": f"VERIF_SEED={seed} VERIF_TIER={tier} {VENV_PY} {ROOT}/check.py {prop} --replay {v['case']} --times 20",
                           "violation": v}, f, indent=1)
            print(f"  case {v['case']} ({v['mode']}): {v['what'][:300]}")
            print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    if undecided:
        for u in undecided[:5]:
            print("UNDECIDED:", u[:3000])
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
