"""Every combination of options runs to completion, in bounds, with a sane image."""
import itertools

import numpy as np

from mc import images as I, world

LEVEL = "exploration"
RULE = (
    "Every combination of the options below is run on the real code, compiled with its index bounds checks switched on (an "
    "access outside the image or the trap records raises IndexError); it must return a finite image of the input's shape, and "
    "add_cti one with no negative pixel. Distinct, non-trivial: (options, output) where traps acted."
)
BOUNDS = {
    "quick": "cross product A (all flags of the 3 readout classes x 1-3 phases x express x offset x row window x column window "
    "x time window x shapes 1x1, 2x1, 3x2; two groups of traps) and B (10 trap sets x 8 image types (2 for most trap sets) x 7 shapes x 3 directions x "
    "3 readout classes x phases x express, add and remove), and C (as B, 3 trap sets, shapes 140x1, 2x130, 33x3, 70x1, 1x270, 150 pumps)",
    "thorough": "A with all trap sets, 1-5 phases, shapes up to 6x3 and every express value; B with shapes up to 9x4",
}
TRAPS = {
    "instant": [[["instant", 20.0, 2.0]]],
    "instants": [[["instant", 20.0, 2.0], ["instant", 8.0, 0.4]]],
    "slow": [[["slow", 20.0, 2.0, 0.3]]],
    "zero capture": [[["slow", 20.0, 2.0, 0.0], ["slow", 4.0, 1.0, 0.5]]],
    "mixed": [[["instant", 20.0, 2.0]], [["slow", 25.0, 5.0, 0.3]]],
    "dense": [[["instant", 900.0, 2.0], ["instant", 400.0, 0.5]]],
    "dense-mixed": [[["instant", 700.0, 2.0]], [["slow", 800.0, 5.0, 0.3]]],
    "nothing": [[["instant", 0.0, 2.0]]],
    "continuum": [[["cont", 20.0, 2.0, 0.5]]],
    "three": [[["instant", 12.0, 2.0]], [["cont", 15.0, 0.7, 0.3]], [["slow", 9.0, 30.0, 0.1]]],
}
WELLS = {
    1: {"frac": [1.0], "full": 1000.0, "notch": 3.0, "power": 0.6},
    2: {"frac": [0.4, 0.6], "full": 1000.0, "notch": 0.0, "power": 0.7},
    3: {"frac": [0.5, 0.0, 0.5], "full": [1000.0, 900.0, 800.0], "notch": 0.0, "power": 0.7},
    4: {"frac": [0.25] * 4, "full": 1000.0, "notch": [0.0, 1.0, 2.0, 3.0], "power": 0.7},
    5: {"frac": [0.0, 0.0, 1.0, 0.0, 0.0], "full": 1000.0, "notch": 0.0, "power": 0.5},
}
TYPES = ["float64", "float32", "int64", "int32", "uint16", "fortran", "strided", "zeros"]


def readouts(phases, deep):
    dwell = [round(0.4 + 0.3 * k, 2) for k in range(phases)]
    flags = (True, False)
    for first, between, force, dtype in itertools.product(flags, flags, flags, ("float", "int")):
        yield dict(kind="image", dwell=dwell, first=first, between=between, force=force, dtype=dtype)
    for n, between, force, dtype in itertools.product((None, 1, 7), flags, flags, ("float", "int")):
        yield dict(kind="ci", dwell=dwell, n=n, between=between, force=force, dtype=dtype)
    for n, first, dtype in itertools.product((1, 4), flags, ("float", "int")):
        yield dict(kind="pump", dwell=dwell + dwell, n=n, first=first, dtype=dtype)


def cases(tier):
    deep = tier == "thorough"
    for phases in (1, 2, 3, 4, 5) if deep else (1, 2, 3):
        for roe in readouts(phases, deep):
            for traps in sorted(TRAPS) if deep else ("dense-mixed",):
                for shape in ((1, 1), (2, 1), (4, 2), (6, 3)) if deep else ((1, 1), (2, 1), (3, 2)):
                    if TRAPS[traps][0][0][0] == "cont" and shape[0] > 2 or traps == "three" and shape[0] > 2:
                        continue
                    yield dict(part="A", phases=phases, roe=roe, traps=traps, shape=shape, deep=deep)
    for traps in ("mixed", "dense", "slow"):
        for shape in [(140, 1), (2, 130), (33, 3), (70, 1), (1, 270)] + ([(270, 2), (600, 1)] if deep else []):
            for phases in (1, 3):
                for kind in ("image", "ci", "pump"):
                    yield dict(part="C", traps=traps, shape=shape, phases=phases, kind=kind, deep=deep)
    for traps in sorted(TRAPS):
        for shape in [(1, 1), (1, 2), (2, 1), (1, 5), (5, 1), (2, 3), (3, 2)] + ([(9, 4), (4, 9)] if deep else []):
            if traps in ("continuum", "three") and max(shape) > (3 if deep else 2):
                continue
            for phases in (1, 2, 3) if deep else (1, 2):
                for kind in ("image", "ci", "pump"):
                    if not deep and traps in ("continuum", "three") and (kind == "pump" and phases > 1 or shape == (2, 1)):
                        continue
                    yield dict(part="B", traps=traps, shape=shape, phases=phases, kind=kind, deep=deep)


def ok(rec, got, image, what, added=True):
    rec.evals += 1
    values = np.asarray(got)
    if values.shape != image.shape:
        rec.violation("the image returned has shape %s" % (values.shape,), **what)
    elif not np.all(np.isfinite(values)):
        rec.violation("the image returned is not finite", got=values.tolist(), **what)
    elif added and values.min() < 0:
        rec.violation("the image returned has a negative pixel", got=values.tolist(), **what)
    else:
        if np.any(values != image):
            rec.seen_arrays(values, repr(what))
        return True
    return False


def run_case(case, rec):
    ac = world.ac
    rows, cols = case["shape"]
    groups = TRAPS[case["traps"]]
    ccd = WELLS[case["phases"]]
    base = np.array([[(0.0, 700.0, 40.0, 6.0, 1500.0, 3.0)[(2 * r + 3 * c + 1) % 6] for c in range(cols)] for r in range(rows)])
    rec.sample(**case)
    if case["part"] == "A":
        roe = case["roe"]
        n_max = {"image": rows + 2, "ci": roe.get("n") or rows + 2, "pump": roe.get("n")}[roe["kind"]]
        express = range(0, n_max + 2) if case["deep"] else sorted({0, 1, 2, max(1, rows - 1), n_max + 1} - ({2} if n_max > 4 else set()))
        windows = [None, 0, rows - 1, range(rows // 2, rows), range(0, rows // 2 + 1)]
        if case["deep"]:
            windows.append(range(rows))
        columns = [None, cols - 1, range(0, 1)]
        for e in express:
            for offset in (0, 2):
                if roe["kind"] == "pump":
                    if offset:
                        continue
                    times = [None]
                else:
                    total = rows + offset
                    times = [None, range(0, 1), range(total - 1, total), range(total // 2, total + 2)]
                for t in times:
                    for w in windows:
                        if case["phases"] > 1 and not case["deep"] and w is not None and t is not None and e != 1:
                            continue
                        for c in columns if w is None or t is None else [None]:
                            kw = I.direction(ccd, roe, groups, express=e, offset=offset, window_range=w)
                            kw["serial_window_range"] = c
                            kw["time_window_range"] = t
                            what = dict(roe=roe, traps=case["traps"], shape=case["shape"], express=e, offset=offset,
                                        rows=str(w), columns=str(c), time=str(t), phases=case["phases"])
                            try:
                                got = ac.add_cti(base.copy(), **kw)
                            except Exception as x:
                                rec.violation("%s: %s" % (type(x).__name__, x), **what)
                                return
                            if not ok(rec, got, base, what):
                                return
        return
    p = case["phases"]
    dwell = [0.5 + 0.1 * k for k in range(p)]
    roe = {"image": dict(kind="image", dwell=dwell), "ci": dict(kind="ci", dwell=dwell), "pump": dict(kind="pump", dwell=dwell * 2, n=2)}[case["kind"]]
    large = case["part"] == "C"
    if large and roe["kind"] == "pump":
        roe["n"] = 150
    for kind in ["float64"] if large else TYPES if case["deep"] or case["traps"] in ("instant", "dense-mixed", "slow") else ["float64", "int64"]:
        if kind == "fortran":
            image = np.asfortranarray(base)
        elif kind == "strided":
            image = np.repeat(np.repeat(base, 2, axis=0), 3, axis=1)[::2, ::3]
        elif kind == "zeros":
            image = np.zeros_like(base)
        else:
            image = base.astype(kind)
        reference = {}
        for way in ("parallel", "serial", "both"):
            for express in ((1,) if p > 1 else (3,) if max(case["shape"]) > 150 else (0,)) if large else (0, 1) if case["traps"] in ("continuum", "three") else (0, 1, 2):
                kw = {}
                if way != "serial":
                    kw.update(I.direction(ccd, roe, groups, express=express))
                if way != "parallel":
                    kw.update(I.direction(ccd, roe, groups, prefix="serial", express=express))
                if roe["kind"] == "pump":
                    if way != "serial":
                        kw["parallel_window_range"] = rows - 1
                    if way != "parallel":
                        kw["serial_window_range"] = 0
                what = dict(image=kind, way=way, express=express, roe=roe, traps=case["traps"], shape=case["shape"])
                try:
                    got = ac.add_cti(image, **kw)
                    again = got if large else ac.add_cti(np.array(image, dtype=float), **kw)
                    less = ac.remove_cti(image, iterations=1 if large else 2, **kw)
                except Exception as x:
                    rec.violation("%s: %s" % (type(x).__name__, x), **what)
                    return
                if not (ok(rec, got, image, what) and ok(rec, less, image, what, added=False)):
                    return
                if not world.close(got, again):
                    rec.violation("the type of image matters: " + world.worst(got, again), **what)
                    return
                if kind == "zeros" and np.any(np.asarray(got) != 0):
                    rec.violation("charge from nothing", got=np.asarray(got).tolist(), **what)
                    return
