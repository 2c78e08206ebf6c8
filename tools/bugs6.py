RFG = "_execution/run_function_on_graph.py"
PHYS = "_execution/run_physical.py"
RETRY = "_util/retry.py"
CACHING = "_transformations/caching.py"

bug("C10-shared-attempts", "C10",
    [(RETRY, """        @wraps(f)
        def wrapper(*args, **kwargs):
            for attempt_index in range(attempts):
                try:
                    return f(*args, **kwargs)
                except exc_type:
                    is_last_attempt = attempt_index == attempts - 1
                    if is_last_attempt:
                        raise
""", """        failures = 0

        @wraps(f)
        def wrapper(*args, **kwargs):
            nonlocal failures
            while True:
                try:
                    return f(*args, **kwargs)
                except exc_type:
                    failures += 1
                    if failures >= attempts:
                        raise
"""),
     (PHYS, "    def run(self, fn, retry):\n", "    def run(self, fn, retry, retried):\n"),
     (PHYS, "        self.result.value = retry(fn)(*args, **kwargs)\n",
      "        if id(fn) not in retried:\n            retried[id(fn)] = retry(fn)\n        self.result.value = retried[id(fn)](*args, **kwargs)\n"),
     (PHYS, "                bound_call.value.run(node.fn, retry)\n", "                bound_call.value.run(node.fn, retry, retried)\n"),
     (PHYS, "    retry = retry or identity\n", "    retry = retry or identity\n    retried = {}\n")],
    '''
import uberjob
seen = {}
def flaky(x):
    seen[x] = seen.get(x, 0) + 1
    if seen[x] == 1:
        raise OSError(x)
    return x
p = uberjob.Plan()
a = p.call(flaky, 1)
b = p.call(flaky, 2)
p.add_dependency(a, b)
assert uberjob.run(p, output=[a, b], retry=2, progress=None, max_workers=1) == [1, 2], seen
''', "two calls of the same function that both need a retry in one run (two sites: the failures are counted per wrapper, and wrappers are shared per function)",
    "the attempts of different calls of the same function are counted together")

bug("C10-idle-workers", "C10",
    [(RFG, "            item = queue.get()\n            try:\n", "            try:\n                # Do not keep more threads around than the graph can use.\n                item = queue.get(timeout=2)\n            except Empty:\n                return\n            try:\n"),
     (RFG, "from queue import SimpleQueue\n", "from queue import Empty, SimpleQueue\n")],
    '''
import threading, time
import uberjob
p = uberjob.Plan()
first = p.call(time.sleep, 4)
meet = threading.Barrier(3)
def wait():
    meet.wait(5)
for _ in range(3):
    p.add_dependency(first, p.call(wait))
uberjob.run(p, output=list(n for n in p.graph), progress=None, max_workers=3)
''', "a phase of more than two seconds with fewer ready calls than workers, before many become ready",
    "idle workers end, so that later fewer than max_workers calls run at the same time")

bug("C10-worker-cap", "C10",
    [(RFG, "    worker_count = int(worker_count)\n", "    worker_count = min(int(worker_count), 32)\n")],
    '''
import threading
import uberjob
p = uberjob.Plan()
meet = threading.Barrier(40)
calls = [p.call(lambda: meet.wait(5)) for _ in range(40)]
uberjob.run(p, output=calls, progress=None, max_workers=40)
''', "max_workers larger than 32 and that many independent calls",
    "no more than 32 calls run at the same time")

bug("C03-empty-store", "C03",
    [(CACHING, "        if value_store is None:\n            modified_time_lookup", "        if not value_store:\n            modified_time_lookup")],
    '''
import datetime as dt
import uberjob
class ListStore(uberjob.ValueStore):
    """Holds a list of rows."""
    tick = 0
    def __init__(self):
        self.rows, self.time = [], None
    def __len__(self):
        return len(self.rows)
    def read(self):
        return list(self.rows)
    def write(self, value):
        self.rows = list(value)
        ListStore.tick += 1
        self.time = dt.datetime(2020, 1, 1) + dt.timedelta(seconds=ListStore.tick)
    def get_modified_time(self):
        return self.time
p, r = uberjob.Plan(), uberjob.Registry()
a = p.call(lambda: [1, 2])
st = ListStore()
r.add(a, st)
uberjob.run(p, registry=r, progress=None)
assert st.rows == [1, 2], st.rows
''', "a value store with a __len__ or __bool__ that is false (an empty one)",
    "the value of such a store is never out of date")
