"""Settings left out, and settings given in another way: every combination of them."""
import itertools

import numpy as np

from mc import images as I, world

LEVEL = "exploration"
RULE = (
    "Every combination of giving, or leaving out, each option of add_cti and remove_cti, in each of the ways that mean the same "
    "(left out / None / the documented default; range / index; by name / by position), is run and must give the result of the call "
    "that spells everything out. Likewise for every constructor (attributes and image), the methods' optional arguments, and numbers "
    "given as int, float or numpy scalars (also indices, counts and ranges). After every sequence of changes to objects built with defaults, a newly built one still has the "
    "documented defaults. Distinct, non-trivial: results that differ from the input."
)
BOUNDS = {
    "quick": "9 options of add_cti each left out / None / default / another value (9 x 2 to 4 ways, all combinations that leave both directions on; and each direction alone), all "
    "combinations of constructor arguments, 8 types of number, 6 types of index and count, all sequences of 3 changes to default objects",
    "thorough": "also remove_cti with 1 and 2 iterations over all combinations, and a second set of other values; sequences of 4 changes",
}
ROWS, COLS = 4, 3
CCD = {"frac": [1.0], "full": 1000.0, "notch": 2.0, "power": 0.7}
TRAPS = [[["instant", 30.0, 2.0]], [["slow", 25.0, 5.0, 0.3]]]
OTHER = {
    "parallel_roe": [dict(kind="image", dwell=[0.6], between=False), dict(kind="ci", dwell=[1.0], n=3)],
    "serial_roe": [dict(kind="image", dwell=[0.3], first=False), dict(kind="image", dwell=[2.0], dtype="int")],
    "parallel_express": [2, 1],
    "serial_express": [1, 2],
    "parallel_offset": [2, 1],
    "serial_offset": [1, 3],
    "parallel_window_range": [[1, 2], [0, 3]],
    "serial_window_range": [[1, 1], [0, 2]],
    "time_window_range": [[1, 2], [0, 3]],
}
OPTIONS = sorted(OTHER)
ORDER = [
    "parallel_ccd", "parallel_roe", "parallel_traps", "parallel_express", "parallel_offset", "parallel_window_range",
    "serial_ccd", "serial_roe", "serial_traps", "serial_express", "serial_offset", "serial_window_range", "time_window_range",
]


def image():
    return np.array([[(0.0, 700.0, 40.0, 6.0, 300.0)[(2 * r + 3 * c + 1) % 5] for c in range(COLS)] for r in range(ROWS)])


def default(option, offset):
    if option.endswith("roe"):
        return dict(kind="image", dwell=[1.0], first=True, between=True, force=True, dtype="float")
    if option == "parallel_window_range":
        return [0, ROWS - 1]
    if option == "serial_window_range":
        return [0, COLS - 1]
    if option == "time_window_range":
        return [0, ROWS + offset - 1]
    return 0


def real(option, value):
    if option.endswith("roe"):
        return world.roe(value)
    if option.endswith("range"):
        return range(value[0], value[1] + 1)
    return value


# constructors: class -> arguments in order: (name, default, another value)
MAKE = {
    "ROE": [("dwell_times", [1], [0.5]), ("empty_traps_for_first_transfers", True, False), ("empty_traps_between_columns", True, False),
            ("force_release_away_from_readout", True, False), ("express_matrix_dtype", float, int)],
    "ROEChargeInjection": [("dwell_times", [1], [0.5]), ("n_pixel_transfers", None, 7), ("empty_traps_between_columns", True, False),
                           ("force_release_away_from_readout", True, False), ("express_matrix_dtype", float, int)],
    "ROETrapPumping": [("dwell_times", [0.5, 0.5], [0.2, 0.9]), ("n_pumps", 1, 3), ("empty_traps_for_first_transfers", True, False),
                       ("express_matrix_dtype", float, int)],
    "CCD": [("fraction_of_traps_per_phase", [1], [0.6]), ("full_well_depth", 1e4, 900.0), ("well_notch_depth", 0.0, 5.0),
            ("well_fill_power", 0.58, 0.9), ("well_bloom_level", None, 800.0)],
    "Trap": [("density", 0.13, 30.0), ("release_timescale", 0.25, 2.0), ("capture_timescale", 0, 0.4)],
    "TrapInstantCapture": [("density", 0.13, 30.0), ("release_timescale", 0.25, 2.0)],
}


def expected(name, values):
    """The attributes the arguments stand for."""
    out = dict(values)
    if name == "CCD":
        if out["well_bloom_level"] is None:
            out["well_bloom_level"] = out["full_well_depth"]
        for k in out:
            if not isinstance(out[k], list):
                out[k] = [out[k]]
        out["n_phases"] = 1
    elif name.startswith("ROE"):
        out["n_steps"] = len(out["dwell_times"])
    else:
        out.setdefault("capture_timescale", 0)
    return out


def use(name, x):
    """What the object does to an image."""
    kw = dict(parallel_ccd=world.ccd(CCD), parallel_traps=world.traps(TRAPS), parallel_express=2)
    if name == "CCD":
        kw["parallel_ccd"] = x
    elif name.startswith("ROE"):
        kw["parallel_roe"] = x
    else:
        kw["parallel_traps"] = [x]
    if name == "ROETrapPumping":
        kw["parallel_window_range"] = 1
    return np.array(world.ac.add_cti(image(), **kw))


# changes to objects built with defaults
CHANGES = [
    ["ROE", "dwell_times", "item"], ["ROE", "dwell_times", "append"], ["ROE", "dwell_times", "assign"], ["ROE", "clock_sequence", "clear"],
    ["ROEChargeInjection", "dwell_times", "item"], ["ROEChargeInjection", "n_pixel_transfers", "assign"],
    ["ROETrapPumping", "dwell_times", "item"], ["ROETrapPumping", "n_pumps", "assign"],
    ["CCD", "fraction_of_traps_per_phase", "item"], ["CCD", "full_well_depth", "item"], ["CCD", "well_bloom_level", "item"],
    ["CCD", "fraction_of_traps_per_phase", "append"], ["CCD", "well_notch_depth", "append"], ["Trap", "density", "assign"],
    ["TrapInstantCapture", "density", "assign"], ["CCDPhase", "full_well_depth", "assign"], ["add_cti", "", ""],
]


def cases(tier):
    deep = tier == "thorough"
    for which in (0, 1) if deep else (0,):
        for iterations in (0, 1, 2) if deep else (0,):
            for n in range(len(OPTIONS) + 1):
                for changed in itertools.combinations(OPTIONS, n):
                    yield dict(part="call", changed=changed, which=which, iterations=iterations)
    if not deep:
        for changed in ([], ["parallel_express"], ["serial_roe", "time_window_range"], OPTIONS):
            yield dict(part="call", changed=changed, which=1, iterations=2)
    for directions in ("parallel", "serial"):
        mine = [o for o in OPTIONS if o.startswith(directions) or o == "time_window_range"]
        for n in range(len(mine) + 1):
            for changed in itertools.combinations(mine, n):
                yield dict(part="call", changed=changed, which=0, iterations=0, directions=directions)
    yield dict(part="order")
    for name in sorted(MAKE):
        yield dict(part="make", name=name)
    yield dict(part="methods")
    for kind in ("int", "float", "np.int64", "np.int32", "np.float64", "np.float32", "np.uint16", "np.array"):
        yield dict(part="numbers", kind=kind)
    for kind in ("np.int64", "np.int32", "np.int16", "np.uint8", "np.uint16", "np.intp"):
        for value in range(4 if deep else 3):
            yield dict(part="counts", kind=kind, value=value)
    for first in CHANGES:
        yield dict(part="changes", first=first, depth=4 if deep else 3)


def run(rec, options, iterations=0, directions="both", args=()):
    kw = {}
    for d in ("parallel", "serial"):
        if directions in ("both", d):
            kw[d + "_ccd"] = world.ccd(CCD)
            kw[d + "_traps"] = world.traps(TRAPS)
    kw.update(options)
    rec.evals += 1
    if iterations:
        return np.array(world.ac.remove_cti(image(), iterations, **kw))
    return np.array(world.ac.add_cti(image(), **kw))


def differ(rec, got, want, what, **more):
    ok = world.close(got, want)
    if not ok:
        rec.violation(what + world.worst(got, want), **more)
    return not ok


def same_value(got, want):
    if isinstance(want, list):
        return list(got) == want
    if isinstance(want, (bool, type, type(None))):
        return got is want
    return got == want


def call(case, rec):
    changed = list(case["changed"])
    directions = case.get("directions", "both")
    offset = OTHER["parallel_offset"][case["which"]] if "parallel_offset" in changed else 0
    value = {o: OTHER[o][case["which"]] if o in changed else default(o, offset) for o in OPTIONS}
    want = run(rec, {o: real(o, value[o]) for o in OPTIONS}, case["iterations"], directions)
    ways = []
    for o in OPTIONS:
        mine = [("given", real(o, value[o]))]
        if o not in changed:
            mine.append(("left out", None))
            if o.endswith(("range", "roe")):
                mine.append(("None", None))
        elif o in ("parallel_window_range", "serial_window_range") and value[o][0] == value[o][1]:
            mine.append(("index", value[o][0]))
        ways.append([(o, w, v) for w, v in mine])
    # all combinations of left out / given; None is another way of leaving out, tried with all the rest left out, and with all given
    chosen = list(itertools.product(*[[w for w in mine if w[1] != "None"] for mine in ways]))
    chosen += list(itertools.product(*[[w for w in mine if w[1] != "left out"] for mine in ways if len(mine) > 0]))
    if case["iterations"]:
        chosen = chosen[:: 7]
    for way in chosen:
        kw = {o: v for o, w, v in way if w != "left out"}
        got = run(rec, kw, case["iterations"], directions)
        rec.states += 1
        for o, w, v in way:
            rec.label(w)
        if differ(rec, got, want, "settings given another way: ", ways={o: w for o, w, v in way}, settings=value,
                  iterations=case["iterations"], directions=directions):
            return
    if np.any(want != image()):
        rec.seen_arrays(repr(value), want)


def order(rec):
    """By position."""
    value = {o: real(o, OTHER[o][0]) for o in OPTIONS}
    value.update(parallel_ccd=world.ccd(CCD), serial_ccd=world.ccd(dict(CCD, power=0.5)), parallel_traps=world.traps(TRAPS),
                 serial_traps=world.traps(I.TRAPS["instants"]))
    for n in range(len(ORDER) + 1):
        for first, iterations in (((image(),), 0), ((image(), 1), 1), ((image(), 2), 2)):
            f = world.ac.remove_cti if iterations else world.ac.add_cti
            kw = {o: value[o] for o in ORDER}
            want = np.array(f(*first, **kw))
            rest = {o: value[o] for o in ORDER[n:]}
            got = np.array(f(*(first + tuple(value[o] for o in ORDER[:n])), **rest))
            rec.evals += 2
            rec.label("by position", n)
            differ(rec, got, want, "%d options by position: " % n, iterations=iterations)
            named = dict(kw, image=image(), **({"iterations": iterations} if iterations else {}))
            differ(rec, np.array(f(**named)), want, "everything by name: ", iterations=iterations)
            rec.seen_arrays(want)


def make(rec, name):
    args = MAKE[name]
    cls = getattr(world.ac, name)
    images = {}
    for pick in itertools.product(("left out", "default", "other"), repeat=len(args)):
        values = {a: (other if w == "other" else d) for (a, d, other), w in zip(args, pick)}
        key = repr(sorted(values.items(), key=lambda i: i[0]))
        built = [("by name", cls(**{a: values[a] for (a, d, o), w in zip(args, pick) if w != "left out"}))]
        n = len(args)
        while n and pick[n - 1] == "left out":
            n -= 1
        if "left out" not in pick[:n]:
            built.append(("by position", cls(*[values[a] for a, d, o in args[:n]])))
        for way, x in built:
            rec.states += 1
            rec.label(way)
            for a, v in expected(name, values).items():
                got = getattr(x, a)
                if not same_value(got, v):
                    rec.violation("%s has %s %r, should be %r" % (name, a, got, v), arguments=dict(zip([a[0] for a in args], pick)), way=way)
                    return
            got = use(name, x)
            rec.evals += 1
            if key not in images:
                images[key] = got
                rec.seen_arrays(name, key, got)
            differ(rec, got, images[key], "%s built another way: " % name, arguments=dict(zip([a[0] for a in args], pick)), way=way)


def methods(rec):
    ac = world.ac
    two = ac.CCD(fraction_of_traps_per_phase=[0.4, 0.6], full_well_depth=[900.0, 700.0], well_fill_power=[0.5, 0.8])
    same = []
    for n in (0.0, 3.0, 450.0, 899.0, 2000.0):
        same += [
            ("cloud_fractional_volume", two.cloud_fractional_volume_from_n_electrons_and_phase(n),
             two.cloud_fractional_volume_from_n_electrons_and_phase(n, 0)),
            ("well_filling_function", two.well_filling_function()(n), two.well_filling_function(phase=0)(n)),
            ("CCDPhase", ac.CCDPhase(two).cloud_fractional_volume_from_n_electrons(n), two.well_filling_function(0)(n)),
            ("CCDPhase()", ac.CCDPhase().cloud_fractional_volume_from_n_electrons(n), ac.CCD().well_filling_function(0)(n)),
        ]
        for trap in (ac.Trap(5.0, 2.0, 0.3), ac.TrapInstantCapture(5.0, 0.7), ac.TrapLogNormalLifetimeContinuum(5.0, 0.7, 0.4)):
            f, g = trap.electrons_released_from_electrons_and_dwell_time, trap.electrons_released_from_time_elapsed_and_dwell_time
            same += [("released", f(n), f(n, 1)), ("released", f(n), f(electrons=n, dwell_time=1)), ("elapsed", g(n / 100), g(n / 100, 1)),
                     ("elapsed", g(n / 100), g(time_elapsed=n / 100, dwell_time=1))]
    for pixels in (1, 2, 5, 9):
        for roe in (ac.ROE(), ac.ROE(empty_traps_for_first_transfers=False), ac.ROEChargeInjection(), ac.ROEChargeInjection(n_pixel_transfers=4),
                    ac.ROETrapPumping(n_pumps=5)):
            f = roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express
            for express in (None, 0, 1, 2):
                for offset in (None, 0, 3):
                    for window in ("no", None):
                        where = 0 if isinstance(roe, ac.ROETrapPumping) else pixels
                        kw = dict(express=express, offset=offset, time_window_range=window)
                        kw = {k: v for k, v in kw.items() if v is not None or k == "time_window_range" and window is None}
                        kw = {k: v for k, v in kw.items() if v != "no"}
                        a = f(pixels=where, **kw)
                        b = f(where, express or 0, offset or 0, None)
                        for x, y in zip(a, b):
                            same.append(("matrices %s" % kw, np.asarray(x, float).tolist(), np.asarray(y, float).tolist()))
    species = [ac.Trap(5.0, 2.0, 0.3), ac.TrapInstantCapture(9.0, 0.7)]
    for shape in ((1, 1), (3, 2), (7, 4)):
        same.append(("poisson_trap", [t.density for t in ac.Trap.poisson_trap(species, shape)],
                     [t.density for t in ac.Trap.poisson_trap(trap=species, shape=shape, seed=0)]))
    for what, x, y in same:
        rec.evals += 1
        rec.states += 1
        rec.seen(what, repr(x))
        if not x == y:
            rec.violation("%s with the optional arguments left out gives %r, with them %r" % (what, x, y))


def numbers(rec, kind):
    """Whole numbers of another type."""
    t = {"int": int, "float": float, "np.array": lambda x: np.array(float(x)),
         "np.int64": np.int64, "np.int32": np.int32, "np.float64": np.float64, "np.float32": np.float32, "np.uint16": np.uint16}[kind]
    ac = world.ac

    def result(t, which):
        def s(name):
            return t if which in (name, "all") else float

        ccd = ac.CCD(full_well_depth=s("full")(900), well_notch_depth=s("notch")(3), well_fill_power=s("power")(1))
        trap = [[ac.Trap(s("density")(30), s("lifetime")(2), s("capture")(1))], [ac.TrapInstantCapture(s("density")(25), s("lifetime")(3))]]
        out = []
        for n in (1, 2):
            dwell = [s("dwell")(1 + k) for k in range(n)]
            dev = ccd if n == 1 else ac.CCD(
                fraction_of_traps_per_phase=[s("frac")(1), s("frac")(2)], full_well_depth=[s("full")(900), s("full")(700)],
                well_notch_depth=s("notch")(3), well_fill_power=[s("power")(1), s("power")(1)])
            for roe in (ac.ROE(dwell_times=dwell), ac.ROEChargeInjection(dwell_times=dwell, n_pixel_transfers=6)):
                for express in (0, 2):
                    out.append(np.array(ac.add_cti(image(), parallel_ccd=dev, parallel_roe=roe, parallel_traps=trap, parallel_express=express)))
        return np.array(out)

    want = result(float, "")
    rec.seen_arrays(want)
    for which in ("full", "notch", "power", "frac", "density", "lifetime", "capture", "dwell", "all"):
        if kind == "np.array" and which in ("all", "dwell"):
            continue
        got = result(t, which)
        rec.evals += 8
        rec.states += 1
        rec.label(kind)
        if differ(rec, got, want, "%s given as %s: " % (which, kind)):
            return


def counts(case, rec):
    """Indices and other whole numbers of numpy's types."""
    t, v = getattr(np, case["kind"][3:]), case["value"]
    ac = world.ac
    roe = {
        "image": lambda c: ac.ROE(), "int": lambda c: ac.ROE(express_matrix_dtype=int), "first": lambda c: ac.ROE(empty_traps_for_first_transfers=False),
        "inject": lambda c: ac.ROEChargeInjection(n_pixel_transfers=c(6)), "inject by default": lambda c: ac.ROEChargeInjection(),
        "pump": lambda c: ac.ROETrapPumping(n_pumps=c(v + 2)),
    }

    def both(f, what):
        want = np.array(f(int))
        try:
            got = np.array(f(t))
        except Exception as e:
            rec.violation("%s as %s: %r" % (what, case["kind"], e), value=v)
            return
        rec.evals += 2
        rec.states += 1
        rec.seen(what, want.tolist())
        differ(rec, got, want, "%s as %s: " % (what, case["kind"]), value=v)

    for name in sorted(roe):
        for o in OPTIONS:
            if o.startswith("time") or not o.endswith(("express", "offset", "window_range")):
                continue
            for time in (None, range(1, 4)) if "int" not in name and name != "pump" else (None,):
                def f(c):
                    kw = {"time_window_range": time}
                    if name == "pump":
                        kw.update(parallel_window_range=c(1), serial_window_range=c(0))
                    kw[o] = c(v)
                    if o != "serial_window_range" or v < image().shape[1]:
                        return run(rec, dict(kw, parallel_roe=roe[name](c)), directions="parallel" if name == "pump" else "both")
                    return 0

                both(f, "%s, %s%s" % (name, o, "" if time is None else " in a time window"))
    for n in range(3):
        both(lambda c: run(rec, {"parallel_express": c(n), "serial_express": c(1)}, iterations=c(v)), "iterations, express %d" % n)
    both(lambda c: [x.density for x in ac.Trap.poisson_trap([ac.Trap(10.0), ac.Trap(3.0)], (c(v + 3), c(v + 1)), seed=c(v))], "shape and seed")
    both(lambda c: world.ac.CCD(fraction_of_traps_per_phase=[0.2, 0.3, 0.5], full_well_depth=[10, 20, 30]).well_filling_function(c(v % 3))(5.0), "phase")
    both(lambda c: run(rec, {
        "parallel_window_range": range(c(0), c(v + 1)), "serial_window_range": range(c(0), c(1)), "time_window_range": range(c(v), c(v + 3))}), "ranges")


def changes(case, rec):
    """Objects built with defaults, after others that were have been changed."""
    ac = world.ac
    base = {name: use(name, getattr(ac, name)()) for name in MAKE}

    def change(a):
        name, attribute, how = a
        if name == "add_cti":
            run(rec, {})
            return
        x = getattr(ac, name)()
        old = getattr(x, attribute)
        if how == "item":
            old[0] = 3.7
        elif how == "append":
            old.append(0.3)
        elif how == "clear":
            del old[:]
        else:
            setattr(x, attribute, [0.7] if isinstance(old, list) else 5)

    def check(hist):
        for name in sorted(MAKE):
            x = getattr(ac, name)()
            rec.evals += 1
            for a, v in expected(name, {n: d for n, d, o in MAKE[name]}).items():
                if not same_value(getattr(x, a), v):
                    rec.violation("a new %s has %s %r, should be %r" % (name, a, getattr(x, a), v), history=hist)
                    return False
        x = ac.CCDPhase()
        if [x.full_well_depth, x.well_notch_depth, x.well_fill_power, x.fraction_of_traps_per_phase] != [1e4, 0.0, 0.58, 1]:
            rec.violation("a new CCDPhase is %s" % vars(x), history=hist)
            return False
        rec.states += 1
        return True

    # the defaults live in the classes and functions, so histories are run one after another, and each checked after every change
    for rest in itertools.product(CHANGES, repeat=case["depth"] - 1):
        hist = [case["first"]] + list(rest)
        rec.traces += 1
        for i, a in enumerate(hist):
            change(a)
            rec.transitions += 1
            rec.label(a[2] or "call")
        if not check(hist):
            return
    for name in MAKE:
        rec.seen_arrays(name, base[name])
        differ(rec, use(name, getattr(ac, name)()), base[name], "a new %s after the changes: " % name, history=hist)


def run_case(case, rec):
    rec.sample(**case)
    if case["part"] == "call":
        call(case, rec)
    elif case["part"] == "order":
        order(rec)
    elif case["part"] == "make":
        make(rec, case["name"])
    elif case["part"] == "methods":
        methods(rec)
    elif case["part"] == "numbers":
        numbers(rec, case["kind"])
    elif case["part"] == "counts":
        counts(case, rec)
    else:
        changes(case, rec)
