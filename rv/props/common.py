"""Workload pieces shared by the property modules."""
import random
import threading

import uberjob

from rv import core, plangen, trace
from rv.core import Pert, execute
from rv.plangen import Gen, Ref
from rv.stores import Clock, MemStore
from rv.trace import E, F, S, Recorder


def workers(case, rng, top=8):
    if case.mode == "det":
        return rng.choice([1, 2, 2, 3, 3, 4, 5, 6, top])
    k = rng.random()
    if k < 0.05:
        return None
    if k < 0.1:
        return rng.choice([16, 24, 40])
    return rng.choice([1, 2, 2, 3, 4, 4, 6, 8])


def scheduler(rng):
    return rng.choice([None, "default", "random", "random"])


def run_kw(case, rng, **kw):
    d = dict(max_workers=workers(case, rng), scheduler=scheduler(rng), progress=None)
    d.update(kw)
    return d


def seed_random(rng):
    """The 'random' scheduler draws from the global generator."""
    random.seed(rng.random())


def concurrency(log):
    """(max calls in flight, number of call starts that happened while another was in flight)"""
    cur = mx = over = 0
    for e in log:
        if e[0] == S:
            cur += 1
            if cur > 1:
                over += 1
            mx = max(mx, cur)
        elif e[0] in (E, F):
            cur -= 1
    return mx, over


def note_log(case, log, n=120):
    case.note(log=[f"{e[0]}{e[1]}" for e in log[-n:]])


def summary(case, spec, log, kw, extra=None):
    mx, over = concurrency(log)
    case.count("call_starts", sum(1 for e in log if e[0] == S))
    case.count("overlapping_starts", over)
    case.count("max_in_flight_ge_2", mx >= 2)
    d = {"spec": spec.describe(), "run": {k: repr(v)[:80] for k, v in kw.items()}, "log": [f"{e[0]}{e[1]}" for e in log[:60]]}
    if extra:
        d.update(extra)
    case.sample(d)


# ---------------------------------------------------------------- other runs at the same time
def companion(case, rng):
    """A small run of a plan of its own, as a function; what it finds is reported in case.violations."""
    p = uberjob.Plan()
    nodes, vals, ran = [], [], []

    def f(i, *args):
        ran.append((i, args))
        return (i, len(args))

    for i in range(rng.choice([1, 3, 5, 8])):
        args = rng.sample(range(i), min(i, rng.choice([0, 1, 2])))
        nodes.append(p.call(f, i, *[nodes[a] for a in args]))
        vals.append((i, tuple(vals[a][2] for a in args), (i, len(args))))
    bad = p.call(f, "bad")
    fails = rng.random() < 0.3

    def fail(x):
        raise Companion(x)

    if fails:
        bad = p.call(fail, bad)
        p.call(f, "never", bad)
    reg = None
    stored = set()
    if rng.random() < 0.4:
        reg = uberjob.Registry()
        clock = Clock()
        for i, n in enumerate(nodes):
            if rng.random() < 0.5:
                reg.add(n, MemStore(i, clock, []))
                stored.add(i)
    kw = run_kw(case, rng, max_workers=rng.choice([1, 2, 3]), max_errors=rng.choice([0, None]))

    def go():
        case.count("companion_runs")
        try:
            out = uberjob.run(p, output=[nodes, bad] if fails else nodes, registry=reg, **kw)
        except uberjob.CallError as e:
            if not fails or type(e.__cause__) is not Companion or e.call is not bad:
                case.violate(f"companion: a run of another plan at the same time ended with {core.exc_info(e)} {core.exc_info(e.__cause__)}")
            return
        except BaseException as e:
            case.violate(f"companion: a run of another plan at the same time ended with {core.exc_info(e)}")
            return
        want = [v[2] for v in vals]
        if fails or out != want or sorted(x for x in ran if type(x[0]) is int) != [v[:2] for v in vals]:
            case.violate("companion: a run of another plan at the same time went wrong", out=repr(out)[:300], want=repr(want)[:300], ran=repr(ran)[:300])

    return go


class Companion(Exception):
    pass


def join(case, ts, what):
    if case.mode == "det":
        for t in ts:
            t.join()  # a deadlock is reported by the scheduler
        return
    for t in ts:
        t.join(30)
    if any(t.is_alive() for t in ts):
        case.restart = True
        case.violate(f"hang: {what} had not finished after 30 s")


def beside(case, fn, rec=None, p=0.08):
    """fn, or fn with an unrelated run at the same time (in another thread, or inside a call)."""
    rng = random.Random(case.rng.random())
    if rng.random() >= p:
        return fn
    go = companion(case, rng)
    if rec is not None and rng.random() < 0.4:
        old, left = rec.on_start, [rng.choice([1, 1, 2, 3])]

        def on_start(n, a):
            if left[0] > 0:
                left[0] -= 1
                if not left[0]:
                    go()
            if old:
                old(n, a)

        def inside():
            rec.on_start = on_start
            try:
                return fn()
            finally:
                rec.on_start = old

        case.note(beside="inside a call")
        return inside

    def both():
        t = threading.Thread(target=go)
        t.start()
        try:
            return fn()
        finally:
            join(case, [t], "a run beside another")

    case.note(beside="another thread")
    return both
