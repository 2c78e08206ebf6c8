CACHING = "_transformations/caching.py"
RFG = "_execution/run_function_on_graph.py"
SIMPLE = "progress/_simple_progress_observer.py"
RETRY = "_util/retry.py"

bug("C18-memoised-instants", "C18",
    [(CACHING, "        modified_time = _to_naive_utc_time(retry(value_store.get_modified_time)())\n",
      "        modified_time = _known_utc_time(retry(value_store.get_modified_time)())\n"),
     (CACHING, "def _get_stale_scope(", "_known_utc_time = functools.lru_cache(4096)(_to_naive_utc_time)\n\n\ndef _get_stale_scope("),
     (CACHING, "import datetime as dt\n", "import datetime as dt\nimport functools\n")],
    '''
import datetime as dt, os, time
os.environ["TZ"] = "America/New_York"
time.tzset()
import uberjob
class S(uberjob.ValueStore):
    def __init__(self, t):
        self.t, self.writes = t, 0
    def read(self):
        return 1
    def write(self, value):
        self.writes, self.t = self.writes + 1, dt.datetime.now()
    def get_modified_time(self):
        return self.t
# 01:30 happens twice on this day, an hour apart; the stored value is from between the two.
first = dt.datetime(2023, 11, 5, 1, 30)
p, r = uberjob.Plan(), uberjob.Registry()
source, stored = S(first), S(dt.datetime(2023, 11, 5, 6, 0, tzinfo=dt.timezone.utc))
r.add(p.call(lambda x: x, r.source(p, source)), stored)
uberjob.run(p, registry=r, progress=None)
assert stored.writes == 0
source.t = first.replace(fold=1)
uberjob.run(p, registry=r, progress=None)
assert stored.writes == 1, "the source has changed since"
''', "two modified times that differ in fold only, in one process",
    "the conversion of modified times is memoised, and naive datetimes that differ in fold only compare equal")

bug("C05-times-per-store", "C05",
    [(CACHING, "        modified_time = _to_naive_utc_time(retry(value_store.get_modified_time)())\n",
      """        # A store may be registered for several nodes.
        try:
            modified_time = times[value_store]
        except KeyError:
            modified_time = retry(value_store.get_modified_time)()
            times[value_store] = modified_time = _to_naive_utc_time(modified_time)
        except TypeError:
            modified_time = _to_naive_utc_time(
                retry(value_store.get_modified_time)()
            )
"""),
     (CACHING, "    def process_no_stale_ancestor(node):", "    times = {}\n\n    def process_no_stale_ancestor(node):")],
    '''
import datetime as dt
import uberjob
class S(uberjob.ValueStore):
    """Equal by configuration, as a store with a name might be."""
    def __init__(self, name, t):
        self.name, self.t, self.writes = name, t, 0
    def __eq__(self, other):
        return type(other) is S and self.name == other.name
    def __hash__(self):
        return hash(self.name)
    def read(self):
        return 1
    def write(self, value):
        self.writes, self.t = self.writes + 1, dt.datetime.now()
    def get_modified_time(self):
        return self.t
p, r = uberjob.Plan(), uberjob.Registry()
a, b = S("x", dt.datetime(2023, 1, 1)), S("x", None)
x = p.call(lambda: 1)
r.add(x, a)
y = p.call(lambda x: x, x)
r.add(y, b)
uberjob.run(p, registry=r, progress=None)
assert (a.writes, b.writes) == (0, 1), (a.writes, b.writes)
''', "stores that compare equal but hold different values",
    "modified times are looked up once per store, and stores are told apart by equality")

bug("C20-totals-unlocked", "C20",
    [(SIMPLE, """    def increment_total(self, *, section: str, scope: tuple, amount: int):
        with self._lock:
            self._stale = True
            self._state.increment_total(section, scope, amount)
""", """    def increment_total(self, *, section: str, scope: tuple, amount: int):
        # Totals are announced by the thread that called run, before any call starts.
        self._stale = True
        self._state.increment_total(section, scope, amount)
""")],
    '''
import threading, time
import uberjob
from uberjob.progress import Progress
from uberjob.progress._console_progress_observer import ConsoleProgressObserver
outputs = []
class Scope:
    def __init__(self, n):
        self.n = n
    def __hash__(self):
        if self.n == 2:
            time.sleep(0.3)
        return self.n
    def __str__(self):
        return f"scope{self.n}"
class Observer(ConsoleProgressObserver):
    def _output(self, value):
        outputs.append(value)
o = Observer(initial_update_delay=0.05, min_update_interval=0.05, max_update_interval=1000)
with o:
    for n in (1, 2):
        o.increment_total(section="run", scope=(Scope(n),), amount=1)
    time.sleep(1)
    assert "scope2" in outputs[-1], outputs
''', "a rendering that happens while a total is being announced, and nothing after it",
    "increment_total changes what is rendered without the lock")
