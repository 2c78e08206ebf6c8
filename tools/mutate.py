"""Mutation survey (development only): mutate.py survey OUT.jsonl [file ...] | mutate.py check OUT.jsonl RESULT.jsonl [cases]

survey: generate mutants of src/uberjob, keep those that pass the tests.
check: run every property's check with few cases on each survivor until one reports a violation.
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
SRC = "/repo/src/uberjob"
FILES = """_builtins.py _errors.py _execution/greedy.py _execution/run_function_on_graph.py _execution/run_physical.py _execution/scheduler.py
_graph.py _plan.py _registry.py _rendering.py _run.py _transformations/__init__.py _transformations/caching.py _transformations/pruning.py _util/__init__.py
_util/networkx_util.py _util/retry.py _util/traceback.py _util/validation.py graph.py progress/_composite_progress_observer.py
progress/_console_progress_observer.py progress/_html_progress_observer.py progress/_ipython_progress_observer.py progress/_null_progress_observer.py
progress/_simple_progress_observer.py progress/__init__.py stores/_binary_file_store.py stores/_file_store.py stores/_json_file_store.py
stores/_literal_source.py stores/_modified_time_source.py stores/_mounted_store.py stores/_path_source.py stores/_pickle_file_store.py
stores/_text_file_store.py stores/_touch_file_store.py""".split()
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "+", ast.Mod: "+"}


def mutants(path):
    text = open(path).read()
    raw = text.encode()
    tree = ast.parse(text)
    starts = [0]
    for line in raw.splitlines(keepends=True):
        starts.append(starts[-1] + len(line))

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def put(n, new, why):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((a, b, new, f"{why} line {n.lineno}: {seg(n)[:70]!r} -> {new[:70]!r}"))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in ("__repr__", "default_style", "assert_is_callable"):
                skip.update(ast.walk(n))
            for d in n.decorator_list:
                skip.update(ast.walk(d))
            if isinstance(n, ast.FunctionDef):
                for a in ast.walk(n.args):
                    if isinstance(a, ast.arg) and a.annotation:
                        skip.update(ast.walk(a.annotation))
                if n.returns:
                    skip.update(ast.walk(n.returns))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(n)
        if isinstance(n, ast.JoinedStr):
            skip.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            new = CMP.get(type(n.ops[0]))
            if new:
                put(n, f"{seg(n.left)} {new} {seg(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, op.join("(" + seg(v) + ")" for v in n.values), "bool")
            for i in range(len(n.values)):
                put(n, (" and " if isinstance(n.op, ast.And) else " or ").join("(" + seg(v) + ")" for j, v in enumerate(n.values) if j != i), "drop operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(" + seg(n.operand) + ")", "not")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, f"({seg(n.left)}) {BIN[type(n.op)]} ({seg(n.right)})", "arith")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, str(not n.value), "const")
            elif type(n.value) is int:
                put(n, str(n.value + 1), "const")
                if n.value:
                    put(n, str(n.value - 1), "const")
        elif isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant) or isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                continue
            put(n, "pass", "delete")
        elif isinstance(n, ast.AugAssign):
            put(n, "pass", "delete")
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, "pass", "delete")
        elif isinstance(n, ast.Raise):
            put(n, "pass", "delete")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, "pass", "delete")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            put(n.test, "(True)", "cond")
            put(n.test, "(False)", "cond")
        elif isinstance(n, ast.comprehension):
            for i in n.ifs:
                put(i, "True", "filter")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None and seg(n.type) == "BaseException":
            put(n.type, "Exception", "except")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            put(n.type, "ZeroDivisionError", "except")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and k.arg not in ("scope",):
                    a = starts[k.lineno - 1] + k.col_offset
                    b = starts[k.end_lineno - 1] + k.end_col_offset
                    e = b
                    while raw[e: e + 1] in (b" ", b"\n"):
                        e += 1
                    if raw[e: e + 1] == b",":
                        out.append((a, e + 1, "", f"drop keyword line {k.lineno}: {k.arg} of {seg(n.func)[:40]}"))
                    else:
                        out.append((a, b, "", f"drop keyword line {k.lineno}: {k.arg} of {seg(n.func)[:40]}"))
        elif isinstance(n, ast.With):
            for it in n.items:
                if it.optional_vars is None:
                    put(it.context_expr, "__import__('contextlib').nullcontext()", "with")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n.value, "None", "return")
    for a, b, new, why in out:
        s = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(s)
        except SyntaxError:
            continue
        yield s.decode(), why


def test(job):
    f, text, why = job
    tmp = tempfile.mkdtemp(prefix="mutate.", dir="/tmp")
    try:
        shutil.copytree("/repo/src", f"{tmp}/src", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy("/repo/pyproject.toml", tmp)
        shutil.copytree("/repo/tests", f"{tmp}/tests", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{tmp}/src/uberjob/{f}", "w").write(text)
        env = dict(os.environ, PYTHONPATH=f"{tmp}/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TMPDIR=tmp)
        try:
            t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=30", "--disable-warnings", "tests"], cwd=tmp, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=90)
            return t.returncode == 0
        except subprocess.TimeoutExpired:
            return False
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def survey(out, files):
    jobs = [(f, text, why) for f in files for text, why in mutants(f"{SRC}/{f}")]
    print(len(jobs), "mutants", flush=True)
    n = 0
    with open(out, "w") as o, ThreadPoolExecutor(8) as ex:
        for job, ok in zip(jobs, ex.map(test, jobs)):
            if ok:
                n += 1
                o.write(json.dumps(job) + "\n")
                o.flush()
    print(n, "survive the tests", flush=True)


ORDER = {
    "_util/traceback": "C19", "graph": "C02 C01 C19 C13 C14", "stores": "C12 C11", "_transformations/pruning": "C01 C07 C05 C14 C16", "_transformations/caching": "C15 C05 C19 C18 C10 C03", "_run": "C10 C15 C14 C06 C17",
    "_execution": "C01 C04 C07 C16 C17 C10 C06 C15 C02 C19", "_transformations": "C05 C03 C09 C14 C01 C07 C19 C15 C18 C10 C08 C06", "stores": "C12 C11 C18 C08",
    "progress": "C20 C15", "_plan": "C02 C19 C13 C07", "_registry": "C13 C19 C05", "_run": "C10 C14 C15 C19 C13 C05 C02 C06 C17", "_util": "C19 C02 C10 C20 C05 C15 C06",
    "graph": "C02 C01 C15 C19 C13", "_rendering": "C13", "_errors": "C19 C06", "_builtins": "C02 C19", "_graph": "C15",
}
ALL = [f"C{i:02d}" for i in range(1, 21)]


def check(src, result, cases):
    done = set()
    if os.path.exists(result):
        done = {(r["file"], r["why"]) for r in map(json.loads, open(result))}
    for line in open(src):
        f, text, why = json.loads(line)
        if (f, why) in done:
            continue
        tmp = tempfile.mkdtemp(prefix="mutate.", dir="/tmp")
        caught = None
        tried = []
        try:
            shutil.copytree("/repo/src", f"{tmp}/src", ignore=shutil.ignore_patterns("__pycache__"))
            open(f"{tmp}/src/uberjob/{f}", "w").write(text)
            first = next((v.split() for k, v in ORDER.items() if f.startswith(k)), [])
            order = first + [p for p in ALL if p not in first] if os.environ.get("ALLCHECKS") else first
            for p in order:
                env = dict(os.environ, RV_SRC=f"{tmp}/src")
                r = subprocess.run(["python3", "/verif/check.py", p, "--cases", str(cases), *os.environ.get("CHECKARGS", "").split()], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1:
                    case = [x for x in r.stdout.splitlines() if x.startswith("  case")]
                    caught = [p, case[0][:200] if case else ""]
                    break
                tried.append(f"{p}:{r.returncode}")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        with open(result, "a") as o:
            o.write(json.dumps({"file": f, "why": why, "caught": caught, "tried": tried}) + "\n")
        print(f, why, "->", caught and caught[0] or "MISSED", flush=True)


if sys.argv[1] == "survey":
    survey(sys.argv[2], sys.argv[3:] or FILES)
else:
    check(sys.argv[2], sys.argv[3], int(sys.argv[4]) if len(sys.argv) > 4 else 600)
