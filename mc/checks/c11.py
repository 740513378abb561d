"""Purity: every sequence of calls sharing one set of objects."""
import itertools

import numpy as np

from mc import histories as H, images as I, world

LEVEL = "model_checking"
RULE = (
    "State: the public attributes of every object the calls share (images, traps, CCDs, readout electronics) "
    "and all results returned so far. Transition: one call. Every sequence of calls over the menu is run on one "
    "set of objects; each result must equal that of the same call with new objects, earlier results and the "
    "arguments must not change, and no result may share memory with an image. Distinct: (call, result) pairs."
)
BOUNDS = {
    "quick": "all sequences of 3 calls over 14 (sets of readout electronics: 4); 5 base calls with 40-59 variations each in one respect: every ordered pair of variations one after the other",
    "thorough": "all sequences of 4 calls over 14; the same pairs",
}
CCD2 = {"frac": [0.4, 0.6], "full": 1000.0, "notch": 2.0, "power": 0.7}
# in no order by any of their parameters
UNSORTED = [[["slow", 300.0, 9.0, 0.1], ["slow", 900.0, 2.0, 0.3], ["slow", 500.0, 5.0, 0.2]]]
SETS = [
    dict(roe=dict(kind="image", dwell=[1.0]), ccd=I.CCDS["notch"], traps=I.TRAPS["mixed"]),
    dict(roe=dict(kind="image", dwell=[0.5, 0.7], first=False, between=False), ccd=CCD2, traps=UNSORTED),
    dict(roe=dict(kind="ci", dwell=[1.0]), ccd=I.CCDS["plain"], traps=I.TRAPS["instants"]),
    dict(roe=dict(kind="pump", dwell=[0.5] * 4, n=3), ccd={"frac": [0.0, 1.0], "full": 1000.0, "notch": 0.0, "power": 0.8},
         traps=I.TRAPS["dense"]),
]
MENU = [
    "small", "large", "wide-int", "express", "offset", "row-window", "column-window", "time-window",
    "serial", "both", "none", "remove", "remove-0", "remove-none",
]


# Calls that differ from one of these in one respect
IMAGE = [[0.0, 40.0], [700.0, 6.0], [0.0, 5.0], [40.0, 1200.0]]
SMALL = [[6.0], [700.0], [40.0]]
PLAIN = {"frac": [1.0], "full": 1000.0, "notch": 2.0, "power": 0.8}
BASES = {
    "slow": dict(traps=[[["slow", 30.0, 1.5, 0.3], ["slow", 20.0, 4.0, 0.5]]], ccd=PLAIN),
    "instant": dict(traps=[[["instant", 30.0, 1.5], ["instant", 20.0, 4.0]]], ccd=PLAIN),
    "mixed": dict(traps=[[["instant", 30.0, 1.5]], [["slow", 20.0, 4.0, 0.5]]], ccd=PLAIN),
    "continuum": dict(traps=[[["cont", 30.0, 1.5, 0.4]]], ccd=PLAIN, image=SMALL),
    "phases": dict(traps=[[["slow", 30.0, 1.5, 0.3]]], ccd=CCD2, roe=dict(kind="image", dwell=[0.5, 0.7])),
}


def variants(name):
    """Calls that differ from the base in one respect each; no two are the same call."""
    base = dict(BASES[name])
    base.setdefault("roe", dict(kind="image", dwell=[1.0]))
    base.setdefault("image", IMAGE)
    base.update(kw={}, direction="parallel")
    out = [base]

    def vary(**change):
        new = dict(base, **change)
        if new not in out:
            out.append(new)

    groups = base["traps"]
    for g, group in enumerate(groups):
        for i, s in enumerate(group):
            def put(*species):
                vary(traps=groups[:g] + [group[:i] + [list(x) for x in species] + group[i + 1 :]] + groups[g + 1 :])

            put([s[0], 2 * s[1]] + s[2:])
            put(s[:2] + [2 * s[2]] + s[3:])
            put(s[:2] + [s[2] * (1 + 1e-6)] + s[3:])
            put([s[0], 0.5 * s[1]] + s[2:], [s[0], 0.5 * s[1]] + s[2:])
            if len(s) > 3:
                put(s[:2] + [s[3], s[2]])
                put(s[:3] + [2 * s[3]])
                # the same sum of rates
                rate = 1 / s[2] + 1 / s[3]
                if s[0] == "slow" and rate > 1.5:
                    put(s[:2] + [1 / (rate - 1.5), 1 / 1.5])
            if s[0] == "slow":
                put(["instant"] + s[1:3])
            if s[0] == "instant":
                put(["slow"] + s[1:] + [1.0])
            if s[0] == "cont":
                put(["instant"] + s[1:3])
            if len(group) > 1:
                vary(traps=groups[:g] + [group[:i] + group[i + 1 :]] + groups[g + 1 :])
        if len(group) > 1:
            a, b = group[:2]
            vary(traps=[[b, a] + group[2:]])
            vary(traps=[[[a[0], b[1]] + a[2:], [b[0], a[1]] + b[2:]]])
            vary(traps=[[a], [b]])
    if len(groups) > 1:
        vary(traps=groups[::-1])
        vary(traps=groups[:1])
        vary(traps=groups[1:])
    ccd = base["ccd"]

    def other(x, f):
        return [f(v) for v in x] if isinstance(x, list) else f(x)

    vary(ccd=dict(ccd, full=other(ccd["full"], lambda v: 2 * v)))
    vary(ccd=dict(ccd, notch=0.0))
    vary(ccd=dict(ccd, power=1.0))
    vary(ccd=dict(ccd, power=0.5))
    if len(ccd["frac"]) > 1:
        vary(ccd=dict(ccd, frac=ccd["frac"][::-1]))
        vary(ccd=dict(ccd, full=[ccd["full"], 2 * ccd["full"]]))
        vary(ccd=dict(ccd, full=[2 * ccd["full"], ccd["full"]]))
        vary(ccd=dict(ccd, notch=[0.0, 5.0]))
        vary(ccd=dict(ccd, notch=[5.0, 0.0]))
        vary(ccd=dict(ccd, power=[1.0, 0.6]))
    roe = base["roe"]
    vary(roe=dict(roe, dwell=[2 * d for d in roe["dwell"]]))
    if len(roe["dwell"]) > 1:
        vary(roe=dict(roe, dwell=roe["dwell"][::-1]))
    for flag in ("first", "between", "force"):
        vary(roe=dict(roe, **{flag: False}))
    vary(roe=dict(roe, dtype="int"))
    vary(roe=dict(kind="ci", dwell=roe["dwell"]))
    vary(roe=dict(kind="ci", dwell=roe["dwell"], n=9))
    if len(roe["dwell"]) > 1:
        vary(roe=dict(kind="pump", dwell=[0.5] * 4, n=3), kw=dict(window=1))
        vary(roe=dict(kind="pump", dwell=[0.5] * 4, n=4), kw=dict(window=1))
        vary(roe=dict(kind="pump", dwell=[0.5] * 4, n=3), kw=dict(window=2))
    grid = np.array(base["image"])
    for kw in (
        dict(express=1), dict(express=2), dict(offset=1), dict(offset=2), dict(express=2, offset=1), dict(window=[1, 2]), dict(window=[2]),
        dict(across=[0]), dict(across=[1]), dict(time=[0, 1]), dict(time=[1, 2]), dict(time=[2, 3]), dict(remove=1), dict(remove=2),
    ):
        if grid.shape[1] > 1 or "across" not in kw:
            vary(kw=kw)
    vary(direction="serial")
    vary(direction="both")
    for image in (grid[::-1], grid[:, ::-1], grid[:-1], grid[:, :1], grid * 2, grid.T, np.roll(grid, 1, 0), grid + 1e-3,
                  np.vstack([grid, grid[:1]]), grid.reshape(-1, grid.shape[0])):
        vary(image=image.tolist())
    return out


def call_variant(v):
    ac = world.ac
    image, kw = np.array(v["image"]), v["kw"]
    args = {}
    for d in ("parallel", "serial") if v["direction"] == "both" else (v["direction"],):
        args[d + "_ccd"] = world.ccd(v["ccd"])
        args[d + "_roe"] = world.roe(v["roe"])
        args[d + "_traps"] = world.traps(v["traps"])
        args[d + "_express"] = kw.get("express", 0)
        args[d + "_offset"] = kw.get("offset", 0)
    if "window" in kw:
        w = kw["window"]
        args["parallel_window_range"] = w if isinstance(w, int) else range(w[0], w[-1] + 1)
    if "across" in kw:
        args["serial_window_range"] = range(kw["across"][0], kw["across"][-1] + 1)
    if "time" in kw:
        args["time_window_range"] = range(kw["time"][0], kw["time"][-1] + 1)
    if "remove" in kw:
        return np.array(ac.remove_cti(image, kw["remove"], **args))
    return np.array(ac.add_cti(image, **args))


class Objects:
    def __init__(self, spec):
        self.small = np.array([[0.0, 700.0], [300.0, 6.0]])
        self.large = np.array([[0.0, 6.0, 40.0], [700.0, 0.0, 0.0], [0.0, 0.0, 5.0], [40.0, 1200.0, 0.0], [0.0, 0.0, 90.0]])
        self.wide = np.array([[0, 500, 3], [700, 0, 40]])
        self.fortran = np.asfortranarray(self.large)
        self.traps = world.traps(spec["traps"])
        self.ccd = world.ccd(spec["ccd"])
        self.roe = world.roe(spec["roe"])


def public(x, depth=0):
    """What can be seen of an object through its public attributes."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(public(y, depth + 1) for y in x)
    if isinstance(x, (int, float, str, bool, type(None), type, np.generic)):
        return repr(x)
    out = []
    for name in sorted(dir(x)):
        if name.startswith("_"):
            continue
        try:
            v = getattr(x, name)
        except Exception as e:
            out.append((name, type(e).__name__))
            continue
        if callable(v):
            continue
        out.append((name, public(v, depth + 1) if depth < 5 else None))
    return (type(x).__name__, tuple(out))


def seen_before(before, after):
    """Nothing that was there before has changed (new attributes are allowed)."""
    if isinstance(before, tuple) and isinstance(after, tuple):
        if before[:1] != after[:1]:
            return False
        if len(before) == 2 and isinstance(before[1], tuple) and before[0] not in ("list", "tuple", "array"):
            now = {x[0]: x[1] for x in after[1]}
            return all(x[0] in now and seen_before(x[1], now[x[0]]) for x in before[1])
        return len(before) == len(after) and all(seen_before(a, b) for a, b in zip(before[1:], after[1:]))
    return before == after


def call(name, o, pump):
    ac = world.ac
    par = dict(parallel_ccd=o.ccd, parallel_roe=o.roe, parallel_traps=o.traps)
    ser = dict(serial_ccd=o.ccd, serial_roe=o.roe, serial_traps=o.traps)
    rows = dict(parallel_window_range=1) if pump else {}
    cols = dict(serial_window_range=1) if pump else {}
    if name == "small":
        return o.small, ac.add_cti(o.small, **par, **rows)
    if name == "large":
        return o.fortran, ac.add_cti(o.fortran, **par, **rows)
    if name == "wide-int":
        return o.wide, ac.add_cti(o.wide, **par, **rows)
    if name == "express":
        return o.large, ac.add_cti(o.large, parallel_express=2, **par, **rows)
    if name == "offset":
        return o.large, ac.add_cti(o.large, parallel_offset=2, parallel_express=1, **par, **rows)
    if name == "row-window":
        return o.large, ac.add_cti(o.large, parallel_window_range=range(1, 3), **par)
    if name == "column-window":
        return o.large, ac.add_cti(o.large, serial_window_range=2, **par, **rows)
    if name == "time-window":
        return o.large, ac.add_cti(o.large, time_window_range=range(1, 3), **par, **rows)
    if name == "serial":
        return o.large, ac.add_cti(o.large, **ser, **cols)
    if name == "both":
        return o.wide, ac.add_cti(o.wide, serial_offset=1, **par, **ser, **rows, **cols)
    if name == "none":
        return o.small, ac.add_cti(o.small)
    if name == "remove":
        return o.small, ac.remove_cti(o.small, 2, **par, **rows)
    if name == "remove-0":
        return o.large, ac.remove_cti(o.large, 0, **par, **rows)
    return o.small, ac.remove_cti(o.small, 1)


def cases(tier):
    for i in range(len(SETS)):
        for first in MENU:
            for second in MENU if tier == "thorough" else [None]:
                yield dict(set=i, first=first, second=second, depth=4 if tier == "thorough" else 3)
    for name in BASES:
        n = len(variants(name))
        for i in range(n):
            yield dict(part="neighbours", base=name, first=i)


_FRESH = {}


def _fresh(i, name):
    return np.array(call(name, Objects(SETS[i]), SETS[i]["roe"]["kind"] == "pump")[1])


def prepare(in_new_process):
    for i in range(len(SETS)):
        for name in MENU:
            _FRESH[i, name] = in_new_process(_fresh, i, name)
    for name in BASES:
        for i, v in enumerate(variants(name)):
            _FRESH[name, i] = in_new_process(call_variant, v)


def neighbours(case, rec):
    """One call, and in turn every other with the first again after each."""
    name, a = case["base"], case["first"]
    all_ = variants(name)

    def run(i, history):
        rec.evals += 1
        rec.transitions += 1
        got, want = call_variant(all_[i]), fresh(name, i)
        rec.seen(name, i, want.tobytes())
        if got.shape != want.shape or not world.close(got, want, atol=1e-12, rtol=1e-13):
            rec.violation("a call gives another result after other calls: " + world.worst(got, want),
                          call=all_[i], before=[all_[j] for j in history[-2:]], calls_before=len(history))
            return False
        return True

    history = []
    for b in range(len(all_)):
        for i in (a, b):
            if not run(i, history):
                return
            history.append(i)
    rec.traces += len(all_)
    rec.states += len(all_)
    rec.sample(base=name, first=all_[a])


def fresh(i, name):
    ok, out = _FRESH[i, name]
    if not ok:
        raise RuntimeError("%s alone: %s" % (name, out))
    return out


def run_case(case, rec):
    if case.get("part") == "neighbours":
        neighbours(case, rec)
        return
    i = case["set"]
    pump = SETS[i]["roe"]["kind"] == "pump"
    head = [case["first"]] + ([case["second"]] if case["second"] else [])
    names = ("small", "large", "wide", "fortran", "traps", "ccd", "roe")
    states = set()
    for tail in itertools.product(MENU, repeat=case["depth"] - len(head)):
        o = Objects(SETS[i])
        start = {k: public(getattr(o, k)) for k in names}
        results = []
        history = []
        for name in head + list(tail):
            history.append(name)
            image, got = call(name, o, pump)
            rec.evals += 1
            rec.transitions += 1
            bad = None
            if np.shares_memory(np.asarray(got), image):
                bad = "the result shares memory with the image"
            got = np.asarray(got)
            if not world.close(got, fresh(i, name), atol=1e-12, rtol=1e-13):
                bad = "the result is not that of new objects: " + world.worst(got, fresh(i, name))
            for k in names:
                if not seen_before(start[k], public(getattr(o, k))):
                    bad = "the call changed the %s passed to it" % k
            for before, x, y in results:
                if not np.array_equal(x, y):
                    bad = "the result of an earlier call (%s) changed" % before
                if np.shares_memory(x, got):
                    bad = "the result shares memory with that of an earlier call (%s)" % before
            if bad:
                rec.violation(bad, history=list(history), set=SETS[i])
                return
            results.append((name, got, got.copy()))
            states.add(hash(tuple(r[1].tobytes() for r in results)))
            rec.seen(i, name, got.tobytes())
        rec.traces += 1
    rec.states += len(states)
    rec.sample(set=SETS[i], history=history)
