"""Calls running at the same time, and calls that are interrupted, on the same objects."""
import os
import sys
import threading
import types
import warnings

import numpy as np

from mc import histories as H, images as I, world

LEVEL = "model_checking"
RULE = (
    "Stateless exploration of the real code under a controlled scheduler: two threads run one call each on shared "
    "objects and are switched at chosen lines of the package's Python code. Schedules: A up to point i, B up to "
    "point j (or its end), A to its end, B to its end, for every i and j in the bounds. Before that each call is run "
    "alone and the shared objects, the package's global state and process-wide settings are compared at every line: "
    "lines that change any of it become points as well (where none does, calls only read what they share, and all "
    "schedules are equivalent). Interruptions: KeyboardInterrupt at every point of a call, then the same and another "
    "call. Checked: results of the calls, the shared objects, and process-wide settings (warning filters, "
    "numpy error state, global random generator). Distinct: (calls, lines at which the threads were switched or stopped)."
)
BOUNDS = {
    "quick": "all ordered pairs of 11 calls with up to 1 preemption at the first execution of each line, and 14 pairs with up to 2 at "
    "the first execution of each function and at every line that changes anything shared; interruption at the first, second and last execution of each line",
    "thorough": "all ordered pairs of 11 calls with up to 1 preemption at the first, second and last execution of each line, and with up to 2 "
    "at the first and last execution of each function; interruption at every executed line",
}
ASSUMPTIONS = [
    "threads are switched at lines of the package's Python modules; the compiled modules run between them in one piece"
]

CALLS = [
    "slow", "instant", "carried", "first", "serial", "inject", "pump", "mixed", "remove", "poisson", "hst",
]
TWO = [
    ("slow", "slow"), ("slow", "instant"), ("instant", "slow"), ("carried", "first"), ("inject", "inject"),
    ("pump", "pump"), ("mixed", "slow"), ("slow", "mixed"), ("poisson", "poisson"), ("hst", "poisson"), ("poisson", "remove"),
    ("remove", "instant"), ("inject", "carried"), ("serial", "inject"),
]


class Universe:
    """Objects that the calls share."""

    def __init__(self):
        ac = world.ac
        self.ccd = world.ccd(I.CCDS["plain"])
        self.ccd2 = world.ccd({"frac": [0.5, 0.5], "full": 1000.0, "notch": 2.0, "power": 0.7})
        self.slow = world.traps([[["slow", 900.0, 2.0, 0.3]]], "flat")
        self.instant = world.traps([[["instant", 20.0, 2.0], ["instant", 8.0, 0.4]]], "flat")
        self.mixed = [self.instant, self.slow]
        self.roe = world.roe(dict(kind="image", dwell=[1.0]))
        self.roe2 = world.roe(dict(kind="image", dwell=[0.5, 0.5]))
        self.carried = world.roe(dict(kind="image", dwell=[1.0], between=False))
        self.first = world.roe(dict(kind="image", dwell=[0.7], first=False))
        self.ci = world.roe(dict(kind="ci", dwell=[1.0]))
        self.pump = world.roe(dict(kind="pump", dwell=[1.0, 1.0], n=2))
        self.images = [
            np.array([[700.0], [6.0]]), np.array([[6.0, 0.0]]), np.array([[40.0], [0.0]]), np.array([[0.0], [300.0], [6.0]]),
        ]

    def call(self, name, other):
        """other: 1 for the second thread, which works on another image."""
        ac = world.ac
        im = self.images[2 * other]
        if name == "slow":
            return ac.add_cti(im, parallel_ccd=self.ccd, parallel_roe=self.roe, parallel_traps=self.slow)
        if name == "instant":
            return ac.add_cti(im, parallel_ccd=self.ccd2, parallel_roe=self.roe2, parallel_traps=self.instant, parallel_express=1)
        if name == "carried":
            return ac.add_cti(im, parallel_ccd=self.ccd, parallel_roe=self.carried, parallel_traps=self.slow, parallel_offset=other)
        if name == "first":
            return ac.add_cti(im, parallel_ccd=self.ccd, parallel_roe=self.first, parallel_traps=self.slow, parallel_express=1)
        if name == "serial":
            return ac.add_cti(self.images[1], parallel_ccd=self.ccd, parallel_traps=self.slow, serial_ccd=self.ccd, serial_traps=self.instant)
        if name == "inject":
            return ac.add_cti(self.images[3 * other], parallel_ccd=self.ccd, parallel_roe=self.ci, parallel_traps=self.instant)
        if name == "pump":
            return ac.add_cti(im, parallel_ccd=self.ccd, parallel_roe=self.pump, parallel_traps=self.slow, parallel_window_range=other)
        if name == "mixed":
            return ac.add_cti(im, parallel_ccd=self.ccd, parallel_roe=self.roe, parallel_traps=self.mixed, parallel_express=1)
        if name == "remove":
            return ac.remove_cti(im, iterations=1, parallel_ccd=self.ccd, parallel_roe=self.roe, parallel_traps=self.instant, parallel_express=1)
        if name == "poisson":
            return np.array([t.density for t in ac.Trap.poisson_trap(trap=self.slow, shape=(3, 2), seed=5 + other)])
        out = ac.model_for_HST_ACS(date=2453000.5 + 3000 * other)
        traps, ccd, roe = out[:3]
        return np.array([[t.density, t.release_timescale] for t in traps], dtype=float)


def surroundings():
    s = np.random.get_state()
    return (
        [tuple(map(repr, f)) for f in warnings.filters], sorted(np.geterr().items()), np.geterrcall(),
        s[1].tobytes(), s[2:],
    )


class Stop(KeyboardInterrupt):
    pass


def home():
    return {os.path.realpath(os.path.dirname(f)) for f in (
        world.ac.__file__, sys.modules[world.ac.add_cti.__module__].__file__,
        sys.modules[world.ac.Trap.__module__].__file__, sys.modules[world.ac.ROE.__module__].__file__,
        world.ac.trap_managers.__file__,
    )}


class Tracer:
    """Calls at(event number) before each line of the package's Python code."""

    def __init__(self, at):
        self.at = at
        self.n = 0
        self.where = home()
        self.known = {}

    def __call__(self, frame, event, arg):
        f = frame.f_code.co_filename
        mine = self.known.get(f)
        if mine is None:
            mine = self.known[f] = os.path.dirname(os.path.realpath(f)) in self.where
        return self.line if mine else None

    def line(self, frame, event, arg):
        if event == "line":
            i = self.n
            self.n += 1
            self.at(i, frame)
        return self.line


def points(u, name, other, keep):
    """Event numbers at which to act: those executions of each line given by keep, or all."""
    seen = {}

    def at(i, frame):
        seen.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(i)

    t = Tracer(at)
    sys.settrace(t)
    try:
        u.call(name, other)
    finally:
        sys.settrace(None)
    out = {}
    for where, at in seen.items():
        for k in range(len(at)) if keep is None else keep:
            if -len(at) <= k < len(at):
                out[at[k]] = os.path.basename(where[0]), where[1]
    return out


def globals_of_package():
    """Everything mutable that outlives a call, apart from what the caller passes in."""
    out, done = [], set()

    def function(f):
        out.append([getattr(f, "__qualname__", ""), f.__defaults__, f.__kwdefaults__, dict(f.__dict__),
                    [c.cell_contents for c in f.__closure__ or () if not callable(c.cell_contents)]])

    def look(d, where):
        for k in sorted(d, key=str):
            x = d[k]
            if isinstance(x, types.ModuleType) or str(k).startswith("__"):
                continue
            if isinstance(x, (staticmethod, classmethod)):
                x = x.__func__
            if isinstance(x, property):
                continue
            if isinstance(x, type):
                if x.__module__ == where and id(x) not in done:
                    done.add(id(x))
                    look(vars(x), where)
            elif isinstance(x, types.FunctionType):
                if x.__module__ == where:
                    function(x)
            elif hasattr(x, "cache_info"):
                out.append([k, tuple(x.cache_info())])
            elif not callable(x):
                out.append([k, x])

    root = world.ac.__name__
    for name in sorted(sys.modules):
        if name == root or name.startswith(root + "."):
            look(vars(sys.modules[name]), name)
    return H.freeze(out)


def writes(u, name, other):
    """Event numbers right after a line that changed anything that calls may share."""
    last, out = [None], {}

    def at(i, frame):
        # (numpy's error state belongs to one thread)
        around = surroundings()
        now = H.freeze(u), globals_of_package(), around[0], around[3:]
        if last[0] is not None and now != last[0]:
            out[i] = os.path.basename(frame.f_code.co_filename), frame.f_lineno
        last[0] = now

    sys.settrace(Tracer(at))
    try:
        u.call(name, other)
    finally:
        sys.settrace(None)
    return out


def functions(u, name, other, keep):
    """Event numbers of the given executions of each function's first line."""
    seen = {}

    def at(i, frame):
        if frame not in frames:
            frames.append(frame)
            seen.setdefault((frame.f_code.co_filename, frame.f_code.co_name), []).append((i, frame.f_lineno))

    frames = []
    sys.settrace(Tracer(at))
    try:
        u.call(name, other)
    finally:
        sys.settrace(None)
    out = {}
    for where, at in seen.items():
        for k in keep:
            if -len(at) <= k < len(at):
                out[at[k][0]] = os.path.basename(where[0]), at[k][1]
    return out


class Thread:
    def __init__(self, u, name, other):
        self.u, self.name, self.other = u, name, other
        self.go = threading.Semaphore(0)
        self.paused = threading.Semaphore(0)
        self.until = None
        self.done = False
        self.result = self.error = None
        self.thread = threading.Thread(target=self.body, daemon=True)
        self.thread.start()

    def body(self):
        self.go.acquire()
        t = Tracer(self.at)
        if self.until is not None:
            sys.settrace(t)
        try:
            self.result = self.u.call(self.name, self.other)
        except BaseException as e:
            self.error = repr(e)
        finally:
            sys.settrace(None)
            self.done = True
            self.paused.release()

    def at(self, i, frame):
        if i == self.until:
            self.paused.release()
            self.go.acquire()
            sys.settrace(None)

    def run(self, until=None):
        """Up to event `until`, or to the end."""
        if self.done:
            return
        self.until = until
        self.go.release()
        if not self.paused.acquire(timeout=60):
            raise RuntimeError("no answer from %s" % self.name)


def same(got, want):
    return isinstance(got, np.ndarray) and world.close(got, want)


def schedule(u, a, b, i, j):
    A, B = Thread(u, a, 0), Thread(u, b, 1)
    A.run(i)
    B.run(j)
    A.run()
    B.run()
    A.thread.join()
    B.thread.join()
    return A, B


def cases(tier):
    deep = tier == "thorough"
    for a in CALLS:
        yield dict(part="interrupt", call=a, keep=None if deep else [0, 1, -1])
        for b in CALLS:
            if deep or (a, b) in TWO:
                for k in range(2):
                    yield dict(part="two", a=a, b=b, keep=[0, -1] if deep else [0], piece=[k, 2])
            yield dict(part="one", a=a, b=b, keep=[0, 1, -1] if deep else [0])


def run_case(case, rec):
    u = Universe()
    names = [case["call"], "slow"] if case["part"] == "interrupt" else [case["a"], case["b"]]
    want = [np.array(Universe().call(n, k)) for k, n in enumerate(names)]
    for k, n in enumerate(names):
        u.call(n, k)
    mine, around = H.freeze(u), surroundings()

    def unchanged(what, settings=True):
        if H.freeze(u) != mine:
            rec.violation("%s: an object shared by the calls was changed" % what)
            return False
        if settings and surroundings() != around:
            now = surroundings()
            rec.violation("%s: process-wide %s changed" % (what, ", ".join(
                n for n, x, y in zip(("warning filters", "numpy error state", "error call", "random state", "random state"), around, now) if x != y)))
            return False
        return True

    if not unchanged("on its own"):
        return
    if case["part"] == "interrupt":
        stops = points(u, names[0], 0, case["keep"])
        random, filters, errors = np.random.get_state(), list(warnings.filters), np.geterr()
        for i in sorted(stops):
            def at(k, frame):
                if k == i:
                    raise Stop()

            what = "%s stopped at %s:%d" % ((names[0],) + stops[i])
            sys.settrace(Tracer(at))
            try:
                u.call(names[0], 0)
                stopped = False
            except Stop:
                stopped = True
            finally:
                sys.settrace(None)
            rec.evals += 1
            rec.transitions += 1
            rec.label("interrupted" if stopped else "not interrupted")
            rec.seen("stop", names[0], stops[i])
            # (no context manager can undo its settings when stopped on the way out)
            if not unchanged(what, settings=False):
                return
            np.random.set_state(random)
            warnings.filters[:] = filters
            np.seterr(**errors)
            for k, n in enumerate(names):
                got = u.call(n, k)
                if not same(got, want[k]):
                    rec.violation("%s: then %s gives another result" % (what, n), got=np.asarray(got).tolist(), want=want[k].tolist())
                    return
        rec.states += len(stops)
        rec.sample(**case)
        return

    if case["part"] == "one":
        at_a, at_b = points(u, names[0], 0, case["keep"]), {}
    else:
        changes = [writes(u, n, k) for k, n in enumerate(names)]
        at_a, at_b = ({**functions(u, n, k, case["keep"]), **changes[k]} for k, n in enumerate(names))
        rec.label("points after a write", len(changes[0]))
    firsts = sorted(at_a)
    if "piece" in case:
        firsts = firsts[case["piece"][0] :: case["piece"][1]]
    for i in firsts:
        for j in [None] + sorted(at_b):
            A, B = schedule(u, names[0], names[1], i, j)
            rec.evals += 1
            rec.traces += 1
            rec.transitions += 3 + (j is not None)
            rec.seen(names, at_a[i], at_b.get(j))
            what = "%s until %s:%d, %s until %s" % (
                names[0], at_a[i][0], at_a[i][1], names[1], "its end" if j is None else "%s:%d" % at_b[j])
            for k, t in enumerate((A, B)):
                if t.error or not same(t.result, want[k]):
                    rec.violation(
                        "%s: %s gives another result" % (what, t.name), error=t.error,
                        got=None if t.result is None else np.asarray(t.result).tolist(), want=want[k].tolist(),
                    )
                    return
            if not unchanged(what):
                return
        rec.label("points of preemption")
    rec.states += len(firsts) * (1 + len(at_b))
    rec.sample(**case)
