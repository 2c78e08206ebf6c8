"""Create and confirm /verif/seeded/<id> from a definition file.

usage: plant.py defs.py [id ...]
A definition file calls bug(id, prop, edits, demo, needs, breaks); edits are (file under src/uberjob, old, new).
Confirms in a scratch copy: applies, changes original lines, builds, passes the tests, demo 0 before and nonzero after.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "ce256ed"
DEFS = []


def bug(id, prop, edits, demo, needs, breaks):
    DEFS.append((id, prop, edits, demo, needs, breaks))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def confirm(d):
    id, prop, edits, demo, needs, breaks = d
    tmp = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        run(["git", "-C", "/repo", "worktree", "prune"])
        run(["cp", "-a", "/repo", f"{tmp}/repo"])
        repo = f"{tmp}/repo"
        original = True
        for f, old, new in edits:
            p = f"{repo}/src/uberjob/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return f"edit matches {s.count(old)} times in {f}"
            open(p, "w").write(s.replace(old, new))
        patch = run(["git", "-C", repo, "diff"]).stdout
        # deleted lines by origin
        orig = 0
        for f in {e[0] for e in edits}:
            blame = run(["git", "-C", repo, "blame", "-s", "HEAD", "--", f"src/uberjob/{f}"]).stdout.splitlines()
            cur, n = None, 0
            for line in run(["git", "-C", repo, "diff", "-U0", "--", f"src/uberjob/{f}"]).stdout.splitlines():
                if line.startswith("@@"):
                    a = line.split()[1][1:].split(",")
                    s, k = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    orig += sum(blame[i - 1].startswith(("^" + BASE[:6], BASE)) for i in range(s, s + k))
        if not orig:
            return "changes no original line"
        out = f"{ROOT}/seeded/{id}"
        os.makedirs(out, exist_ok=True)
        open(f"{out}/patch.diff", "w").write(patch)
        open(f"{out}/demo.py", "w").write(demo.lstrip("\n"))
        open(f"{out}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{out}/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{out}/meta.json", "w"), indent=1)
        env = dict(os.environ, PYTHONPATH=f"{repo}/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        t = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=120", "--disable-warnings", "tests"], cwd=repo, env=env)
        if t.returncode:
            shutil.rmtree(out)
            return "tests fail: " + t.stdout.strip().splitlines()[-1]
        for i in range(3):
            a = run(["bash", f"{out}/demo.sh"], cwd="/repo")
            if a.returncode:
                shutil.rmtree(out)
                return "demo fails on the unchanged tree: " + a.stdout[-600:]
            b = run(["bash", f"{out}/demo.sh"], cwd=repo, env=dict(os.environ, PYTHONPATH=f"{repo}/src"))
            if not b.returncode:
                shutil.rmtree(out)
                return "demo passes with the patch"
        return "ok: " + b.stdout.strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(tmp)


def main():
    src = open(sys.argv[1]).read()
    exec(compile(src, sys.argv[1], "exec"), {"bug": bug})
    want = sys.argv[2:]
    from concurrent.futures import ThreadPoolExecutor

    todo = [d for d in DEFS if not want or d[0] in want]
    with ThreadPoolExecutor(3) as ex:
        for d, r in zip(todo, ex.map(confirm, todo)):
            print(d[0], "->", r, flush=True)


main()
