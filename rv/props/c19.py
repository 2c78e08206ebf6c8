"""C19: a failure is attributed to the user line that created the failing symbolic call."""
import _thread
import functools
import sys
import threading

import uberjob
from uberjob import CallError
from uberjob.graph import Call

from rv import excs
from rv.core import exc_info, execute
from rv.props.common import *

CASES = {"quick": 12000, "thorough": 250000}
DET_WORKERS = 1
MIN = {"failures_attributed": 4000, "sites": 16000, "truncated": 3000, "whole_stack": 200, "write": 300, "readback": 150, "read_later": 150,
       "source": 150, "mtime": 1000, "gather": 300, "unpack": 300, "run_line": 100, "call": 700, "distinct": 4000}
RULE = ("generated source files build plans at known places (functions, lambdas, generators, class bodies, recursion, threads, exec, "
        "partial, map, several lines) and fail in a call, gather, unpack, store write, read-back, read, source read or modified-time "
        "query; the chain of frames of the reported call is compared with the one recorded on the creating line, and the message with it; "
        "distinct by kind of failure, place and depth")


class St(uberjob.ValueStore):
    def __init__(self, k, fail=None, make=None, present=False):
        self.k, self.fail, self.make, self.present = k, fail, make, present
        self.t = 1

    def _do(self, op):
        if self.fail == op:
            raise self.make()

    def read(self):
        self._do("read")
        return self.value if hasattr(self, "value") else [self.k]

    def write(self, v):
        self._do("write")
        self.value = v
        self.present = True

    def get_modified_time(self):
        self._do("mtime")
        return Clock.time(self.t) if self.present else None


# Each template is a list of lines; M marks the place, E is the creating expression.
def forms(rng, k, m, e):
    """(lines, extra lines the creating expression spans)"""
    head, args = e
    x = f"{head}({args})"
    kind = rng.randrange(18)
    if kind == 0:
        return [f"{m}; R[{k}] = {x}"], 0
    if kind == 1:
        return [f"R[{k}] = ({m}, {x})[1]"], 0
    if kind == 2:
        return [f"R[{k}] = (lambda: ({m}, {x})[1])()"], 0
    if kind == 3:
        return [f"R[{k}] = [({m}, {x})[1] for _ in [0]][0]"], 0
    if kind == 4:
        return [f"R[{k}] = next(({m}, {x})[1] for _ in [0])"], 0
    if kind == 5:
        return [f"with P.scope('s', {k}): {m}; R[{k}] = {x}"], 0
    if kind == 6:
        return [f"{m}; R[{k}] = {head}(", f"    {args}", ")"], 2
    if kind == 7:
        a, _, b = head.rpartition(".")
        if a:
            return [f"{m}; R[{k}] = ({a}", f"    .{b}({args}))"], 1
        return [f"{m}; R[{k}] = {x}"], 0
    if kind == 8:
        return [f"class C: {m}; x = R.__setitem__({k}, {x})"], 0
    if kind == 9:
        return [f"g = functools.partial({head}, {args})", f"{m}; R[{k}] = g()"], 0
    if kind == 10:
        return [f"R[{k}] = list(map(lambda *_: ({m}, {x})[1], [0]))[0]"], 0
    if kind == 11:
        return [f"exec(\"\\n\" * {rng.randrange(4)} + {f'{m}; R[{k}] = {x}'!r})"], 0
    if kind == 12:
        return ["async def co():", f"    {m}; R[{k}] = {x}", "try:", "    co().send(None)", "except StopIteration:", "    pass"], 0
    if kind == 13:
        return ["def gen():", f"    {m}; yield {x}", "", f"for R[{k}] in gen(): pass"], 0
    if kind == 14:
        return ["try:", "    1 // 0", "except ZeroDivisionError:", f"    {m}; R[{k}] = {x}"], 0
    if kind == 15:
        return ["class D:", "    def __enter__(self):", f"        {m}; R[{k}] = {x}", "    def __exit__(self, *a): pass", "with D():", "    pass"], 0
    if kind == 16:
        return ["class D:", f"    @property", "    def p(self):", f"        {m}; R[{k}] = {x}", "", "D().p"], 0
    return [f"if not ({m}): R[{k}] = {x}"], 0


def indent(lines, n=1):
    return ["    " * n + x if x else x for x in lines]


class Writer:
    """Puts sites into a source file at random places."""

    def __init__(self, rng):
        self.rng = rng
        self.funcs = []
        self.n = 0
        self.bare = True

    def wrap(self, lines):
        """Make a function with these lines; returns lines that call it."""
        rng = self.rng
        self.n += 1
        name = f"{rng.choice(['make', 'build', 'step', 'run', 'call', 'add'])}{self.n}"
        k = rng.random()
        if k < 0.15:
            d = rng.choice([1, 2, 3, 6])
            self.funcs.append([f"def {name}(n={d}):", "    if n:", f"        return {name}(n - 1)", *indent(lines), ""])
            return [f"{name}()"]
        if k < 0.3:
            self.funcs.append([f"class K{self.n}:", f"    def {name}(self):", *indent(lines, 2), ""])
            return [f"K{self.n}().{name}()"]
        if k < 0.4:
            self.funcs.append([f"def {name}():", *indent(lines), "", "#" * 3, ""])
            return [f"in_thread({name})"]
        if k < 0.46 and self.bare:
            n = self.n
            self.funcs.append([f"def {name}():", "    try:", *indent(lines, 2), "    except BaseException as e:", f"        ERR[{n}] = e", "    finally:",
                               f"        EV[{n}].release()", ""])
            return [f"in_bare_thread({name}, {n}, EV, ERR)"]
        self.funcs.append(["# " + "-" * rng.randrange(5)] * rng.randrange(3) + [f"def {name}():", *indent(lines), ""])
        return [f"{name}()"] if rng.random() < 0.7 else ["pass", f"(lambda: {name}())()"]

    def source(self, body):
        out = ["# generated", ""]
        for f in self.funcs:
            out += f
        out += ["def main():", *indent(body or ["pass"])]
        return "\n".join(out) + "\n"


def in_thread(f):
    err = []

    def go():
        try:
            f()
        except BaseException as e:
            err.append(e)

    t = threading.Thread(target=go)
    t.start()
    t.join()
    if err:
        raise err[0]


def in_bare_thread(f, n, ev, err):
    """The function is the outermost frame of its stack."""
    ev[n] = threading.Lock()
    ev[n].acquire()
    _thread.start_new_thread(f, ())
    ev[n].acquire()
    if n in err:
        raise err[n]


LIMIT = 4  # the fixed limit: this many frames, then the truncation marker


def chain(sf):
    out = []
    while sf is not None and hasattr(sf, "line"):
        out.append((sf.name, sf.path, sf.line))
        sf = sf.outer
        if len(out) > 200:
            break
    return out, sf is not None


def run_case(case):
    rng = case.rng
    P, REG = uberjob.Plan(), uberjob.Registry()
    R, F, A, G, X = {}, {}, {}, {}, {}
    marks = {}
    span = {}
    raised = {}  # id(exception) -> site

    def mark(k):
        f = sys._getframe(1)
        out = []
        while f is not None:
            out.append((f.f_code.co_name, f.f_code.co_filename, f.f_lineno))
            f = f.f_back
        marks[k] = out

    keep = []

    def raiser(site):
        mk = excs.maker(rng, base=True)

        def make():
            e = mk()
            keep.append(e)
            raised[id(e)] = site
            return e

        return make

    w = Writer(rng)
    body = []
    sites = []  # (k, expression)
    what = {}  # site -> kind of failure expected there
    plan_of = rng.random()

    def site(expr):
        k = len(sites)
        lines, sp = forms(rng, k, f"mark({k})", expr)
        span[k] = sp
        sites.append(k)
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5])):
            lines = w.wrap(lines)
        body.extend(lines)
        return k

    def fn_ok(v):
        return lambda *a, **kw: v

    def fn_fail(k):
        mk = raiser(k)

        def boom(*a, **kw):
            raise mk()

        return boom

    # ---- the plan
    internal = None  # the site whose failure is raised by uberjob itself
    ok_nodes = []
    n_fail = rng.choice([0, 1, 1, 1, 1, 1, 2, 3])
    fails = []
    n_ok = rng.choice([1, 2, 4])
    kinds = ["call", "call", "gather", "igather", "unpack", "unpack-igather", "write", "readback", "read_later", "source", "mtime-call", "mtime-lit",
             "mtime-source", "mtime-gather", "mtime-item", "run_line", "call-kw"]
    chosen = [rng.choice(kinds) for _ in range(n_fail)]
    if n_fail == 0:
        chosen = [rng.choice(["call", "write"])]
    need_run = []
    pre = []  # done before the run by the harness, after the build

    for j in range(n_ok):
        k = len(sites)
        F[k] = fn_ok([k])
        site(("P.call", f"F[{k}]" + (f", R[{rng.choice(ok_nodes)}]" if ok_nodes and rng.random() < 0.5 else "")))
        ok_nodes.append(k)
    for kind in chosen:
        if kind in ("gather", "igather", "unpack", "unpack-igather", "run_line"):
            if internal is not None:
                continue
        if kind.startswith("mtime") and any(c.startswith("mtime") for c, _ in fails):
            continue
        a = rng.choice(ok_nodes)
        k = len(sites)
        if kind in ("call", "call-kw"):
            F[k] = fn_fail(k)
            site(("P.call", f"F[{k}], " + (f"x=[R[{a}], 1]" if kind == "call-kw" else f"R[{a}]")))
            need_run.append(k)
            what[k] = "call"
        elif kind == "gather":
            site(("P.gather", rng.choice([f"{{R[{a}], 1}}", f"{{R[{a}]: 2}}", f"[[{{R[{a}]}}]]"])))
            need_run.append(k)
            internal, what[k] = k, "gather"
        elif kind == "igather":
            F[k] = fn_ok(0)
            site(("P.call", f"F[{k}], {{R[{a}]}}"))
            need_run.append(k)
            internal, what[k] = k, "igather"
        elif kind == "unpack":
            site(("P.unpack", f"R[{a}], {rng.choice([2, 3])}"))
            need_run.append(k)
            internal, what[k] = k, "unpack"
            if True:
                pre.append(lambda k=k: R.__setitem__(k, R[k][0] if R[k] else None))
        elif kind == "unpack-igather":
            site(("P.unpack", f"[{{R[{a}]}}], 1"))
            need_run.append(k)
            internal, what[k] = k, "unpack"
            pre.append(lambda k=k: R.__setitem__(k, R[k][0]))
        elif kind in ("write", "readback", "read_later"):
            F[k] = fn_ok([k])
            site(("P.call", f"F[{k}], R[{a}]"))
            s = len(sites)
            X[s] = St(k, {"write": "write", "readback": "read", "read_later": "read"}[kind], raiser(s), present=kind == "read_later")
            site(("REG.add", f"R[{k}], X[{s}]"))
            what[s] = kind
            need_run.append(k)
            if kind == "read_later":
                X[s].value = 1
        elif kind == "source":
            X[k] = St(k, "read", raiser(k), present=rng.random() < 0.8)
            site(("REG.source", f"P, X[{k}]"))
            what[k] = "source"
            need_run.append(k)
        elif kind == "mtime-source":
            X[k] = St(k, "mtime", raiser(k))
            site(("REG.source", f"P, X[{k}]"))
            what[k] = "mtime"
            need_run.append(k)
        elif kind.startswith("mtime"):
            if kind == "mtime-call":
                F[k] = fn_ok(1)
                site(("P.call", f"F[{k}], R[{a}]"))
            elif kind == "mtime-lit":
                site(rng.choice([("P.lit", "5"), ("P.gather", "5"), ("P.gather", "(1, [2])")]))
            elif kind == "mtime-gather":
                site(("P.gather", f"[R[{a}]]"))
            else:
                site(("P.unpack", f"R[{a}], 1"))
                pre.append(lambda k=k: R.__setitem__(k, R[k][0]))
            X[k] = St(k, "mtime", raiser(k))
            if kind == "mtime-item":
                pre.append(lambda k=k: REG.add(R[k], X[k]))
            else:
                s = len(sites)
                site(("REG.add", f"R[{k}], X[{k}]"))
            what[k] = "mtime"
            need_run.append(k)
        elif kind == "run_line":
            internal = "run"
            what["run"] = "run_line"
            G["bad"] = a
        fails.append((kind, k))
    # ---- the run, also from generated code
    kw = dict(max_workers=rng.choice([1, 1, 2, 4]), progress=None, max_errors=rng.choice([0, 0, None]), retry=rng.choice([None, None, 1, 2]), scheduler=rng.choice([None, "random"]))
    if rng.random() < 0.1:
        kw["retry"] = lambda f: f
    w.bare = case.mode != "det"
    run_lines, sp = forms(rng, '"run"', 'mark("run")', ("run", "P, registry=REG, output=OUT(), **KW"))
    span["run"] = sp
    for _ in range(rng.choice([0, 1, 3])):
        run_lines = w.wrap(run_lines)
    run_body = run_lines

    def OUT():
        out = [R[k] for k in need_run if R[k] is not None]
        rng.shuffle(out)
        if "bad" in G:
            out.append({R[G["bad"]]})
        return out

    src = w.source(body) + "\ndef go():\n" + "\n".join(indent(run_body)) + "\n"
    path = rng.choice(["/home/user/project/plan.py", "plan.py", "<string>", "<ipython-input-3-abc>", "C:\\work\\my plan.py", "/x/uberjob/_plan.py", "/a/b/é.py"])
    env = dict(P=P, REG=REG, R=R, F=F, X=X, mark=mark, functools=functools, in_thread=in_thread, in_bare_thread=in_bare_thread, EV={}, ERR={}, run=uberjob.run, OUT=OUT, KW=kw)
    try:
        exec(compile(src, path, "exec"), env)
        env["main"]()
    except CallError:
        raise
    for f in pre:
        f()
    reg = REG
    if rng.random() < 0.1:
        P2 = P.copy()
        env["P"], env["REG"] = P2, REG.copy()
    two_step = rng.random() < 0.1 and "run" not in what and not any(v == "mtime" for v in what.values())
    if two_step:
        phys, out = uberjob.run(env["P"], registry=env["REG"], output=OUT(), dry_run=True, progress=None)
        env["P"], env["REG"], env["OUT"] = phys, None, lambda: out
    case.note(source=src.split("\n"), fails=fails, run={a: repr(b)[:40] for a, b in kw.items()}, limit=LIMIT, path=path)
    seed_random(rng)
    res = execute(case, env["go"])
    case.count("sites", len(sites))
    err = res.exc
    expected = bool(what)
    if err is None:
        if expected:
            case.violate("lost: the run succeeded although something in it failed", expected=dict(what))
        return
    if not isinstance(err, CallError):
        case.violate(f"type: the run failed with {type(err).__name__} instead of CallError: {exc_info(err)}", expected=dict(what))
        return
    cause = err.__cause__
    at = raised.get(id(cause), internal)
    if at is None or at not in marks:
        case.violate(f"cause: CallError's cause is not what failed: {exc_info(cause)}", expected=dict(what))
        return
    call = err.call
    kind = what.get(at)
    full = marks[at]
    case.count("failures_attributed")
    case.count({"igather": "gather"}.get(kind, kind))
    frames, cut = chain(call.stack_frame)
    want = full[:LIMIT]
    long = len(full) > LIMIT
    case.count("truncated" if long else "whole_stack")
    show = dict(kind=kind, got=frames, want=want, cause=exc_info(cause))
    if not isinstance(call, Call):
        case.violate(f"call: CallError.call is {type(call).__name__}", **show)
    if kind in ("call", "gather") and R[at] is not call and kind == "call":
        case.violate("call: CallError.call is not the symbolic call that failed", **show)
    if kind == "mtime" and type(R[at]) is Call and call is not R[at]:
        case.violate("call: CallError.call is not the symbolic call that was examined", **show)
    if not frames:
        case.violate("frames: the symbolic traceback is empty", **show)
        return
    first_ok = frames[0][:2] == want[0][:2] and want[0][2] <= frames[0][2] <= want[0][2] + span[at]
    if not first_ok:
        case.violate(f"line: a failed {kind} is attributed to {frames[0]} instead of {want[0]}", **show)
    elif frames[1:] != want[1:]:
        case.violate(f"frames: the enclosing frames of a failed {kind} differ", **show)
    if cut != long:
        case.violate(f"truncation: {'marked truncated although it is not' if cut else 'not marked truncated although it is'}", depth=len(full), **show)
    # ---- the message
    lines = str(err).splitlines()
    pos = -1
    for name, fpath, line in reversed(frames):
        nxt = next((i for i in range(pos + 1, len(lines)) if fpath in lines[i] and name in lines[i] and str(line) in lines[i]), None)
        if nxt is None:
            case.violate(f"message: the frame {(name, fpath, line)} is missing or out of order in the message", lines=lines, **show)
            break
        if pos < 0:
            top = nxt
        pos = nxt
    else:
        tr = [i for i, x in enumerate(lines) if "truncated" in x and fpath not in x]
        if long and not (tr and tr[0] < top):
            case.violate("message: does not say that the traceback is truncated, above the frames", lines=lines, **show)
        if not long and tr:
            case.violate("message: says that a complete traceback is truncated", lines=lines, **show)
    case.key(kind, LIMIT, len(full), src)
    case.sample({"source": src.split("\n")[:40], "kind": kind, "message": lines})
