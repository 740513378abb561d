"""Trap pumping against the forward-and-back sequence done the given number of times."""
import numpy as np

from mc import images as I, readout, world

LEVEL = "model_checking"
RULE = (
    "Every column over the alphabet, for every pumped pixel or range of pixels, read out by the reference model that "
    "moves the clouds by geometry through the forward-and-back sequence, pump by pump, with the implementation's "
    "trap managers as the physics (state: occupancy of every phase; transition: one phase in one step), must equal "
    "add_cti; pixels further than one from a pumped pixel, and other columns, must be unchanged, and the order of "
    "the columns must not matter. Distinct, non-trivial: (column, output) pairs where traps acted."
)
BOUNDS = {
    "quick": "images of 1-4 pixels, all columns over 3 values; every pumped pixel (as an integer and as ranges of 1 to all "
    "pixels); sequences of 2, 4 and 6 steps (1-3 phases) with traps in each single phase and in all; 1-4 pumps; "
    "every express value; some with 40 and 150 pumps, or pixels up to 139 of 140, or up to 19 pixels, in steps of 2 and 3 or backwards; both first-transfer settings and multiplier types; four trap mixtures",
    "thorough": "images of 1-5 pixels over 4 values, 2-10 steps, 1-7 pumps",
}
GROUPS = {
    "instant": [[["instant", 30.0, 2.0]]],
    "slow": [[["slow", 30.0, 2.0, 0.3]]],
    "mixed": [[["instant", 300.0, 1.0]], [["slow", 250.0, 5.0, 0.3]]],
    "dense": [[["instant", 900.0, 2.0], ["instant", 400.0, 0.5]]],
}
FEW = [0.0, 40.0, 700.0]


def layouts(n):
    out = [[0.0] * k + [1.0] + [0.0] * (n - 1 - k) for k in range(n)]
    if n > 1:
        w = [float(k + 1) for k in range(n)]
        out.append([x / sum(w) for x in w])
    return out


def ranges(rows):
    for lo in range(rows):
        for hi in range(lo, rows):
            yield lo, hi


def cases(tier):
    deep = tier == "thorough"
    for phases in (1, 2, 3, 4, 5) if deep else (1, 2, 3):
        for frac in layouts(phases):
            spread = len([f for f in frac if f]) > 1
            for i, name in enumerate(sorted(GROUPS)):
                for rows in (1, 2, 3, 4, 5) if deep else (1, 2, 3, 4):
                    if rows == 5 and phases > 2 or rows == 4 and not deep and (phases != 2 or name != "instant" or spread):
                        continue
                    for lo, hi in ranges(rows):
                        if not deep and hi - lo > 1 and (spread or phases == 3 or rows == 4):
                            continue
                        for pumps in (1, 2, 3, 4, 7) if deep else (1, 2) if rows == 4 else (1, 3) if rows == 3 else (1, 2, 4):
                            if not deep and rows == 3 and (pumps == 1) != (i % 2 == 0) and (phases == 3 or hi > lo):
                                continue
                            yield dict(phases=phases, frac=frac, name=name, rows=rows, lo=lo, hi=hi, pumps=pumps, deep=deep)
    # many pumps, and pixels far down the column
    for phases, frac in ((1, [1.0]), (2, [0.4, 0.6]), (3, [0.0, 0.3, 0.7])):
        for name in ("instant", "slow", "mixed"):
            for rows, lo, hi, pumps in ((2, 0, 1, 40), (3, 1, 1, 150), (140, 130, 131, 3), (140, 139, 139, 2), (140, 0, 0, 2),
                                            (12, 0, 11, 2), (12, 2, 8, 3), (23, 3, 21, 1)) + (
                ((3, 1, 1, 400), (300, 270, 271, 3)) if deep else ()
            ):
                if phases == 3 and rows < 4 and not deep:
                    continue
                yield dict(phases=phases, frac=frac, name=name, rows=rows, lo=lo, hi=hi, pumps=pumps, deep=deep, large=True)
                if rows == 12:
                    for step in (2, 3, -1):
                        yield dict(phases=phases, frac=frac, name=name, rows=rows, lo=lo, hi=hi, pumps=pumps, deep=deep, large=True, step=step)
    # waiting only in some of the steps
    for dwell in ([0.0, 1.0, 0.0, 1.0], [1.0, 0.0, 2.0, 0.5], [0.3, 0.0], [0.5, 0.7, 0.9, 1.1]):
        for frac in layouts(len(dwell) // 2):
            for name in sorted(GROUPS):
                rows = 3 if deep or name == "instant" else 2
                for lo, hi in ranges(rows):
                    yield dict(phases=len(frac), frac=frac, name=name, rows=rows, lo=lo, hi=hi, pumps=3 if deep else 2, dwell=dwell, deep=deep)


def run_case(case, rec):
    p, rows, lo, hi, n = (case[k] for k in ("phases", "rows", "lo", "hi", "pumps"))
    groups = GROUPS[case["name"]]
    ccd = {
        "frac": case["frac"], "full": [1000.0 + 100.0 * k for k in range(p)], "notch": 0.0,
        "power": [0.8 - 0.05 * k for k in range(p)],
    }
    step = case.get("step", 1)
    pumped = range(lo, hi + 1, step) if step > 0 else range(hi, lo - 1, step)
    dwell = case.get("dwell") or [round(0.4 + 0.2 * (k % 4), 3) for k in range(2 * p)]
    alphabet = FEW + [5.0] if case["deep"] and rows < 4 else FEW
    if rows > 10:
        image = I.tall(rows, [700.0])
        image[lo] += 300.0
    else:
        image = world.all_columns(alphabet, rows)[:, :: 3 if case.get("large") else 1]
    rec.sample(**case)
    for first in (True, False):
        for dtype in ("float", "int"):
            roe = dict(kind="pump", dwell=dwell, n=n, first=first, dtype=dtype)
            for express in range(0, n + 2) if n < 10 else (0, 1, 3, n // 2, n - 1):
                if case.get("large") and rows < 10 and (first or dtype == "int") and express != 3:
                    continue
                if not case["deep"] and rows > 2 and (not first or dtype == "int") and (p == 3 or hi > lo or express != 2):
                    continue
                if not case["deep"] and rows > 2 and express == n:
                    continue
                if dtype == "int" and (express in (0, 1) or express >= n):
                    continue
                if not first and n > 1 and (express == 0 or express >= n):
                    continue  # the same computation
                got, ok = I.against_model(
                    rec, image, ccd, roe, groups, physics="real", express=express, rows=pumped,
                )
                if not ok:
                    return
                far = [r for r in range(rows) if not {r - 1, r, r + 1} & set(pumped)]
                if np.any(got[far] != image[far]):
                    rec.violation("a pixel away from those pumped changed", roe=roe, rows=[lo, hi], express=express)
                if step == 1 and express == min(2, n - 1) and first and dtype == "float":
                    aside(rec, image, got, ccd, roe, groups, lo, hi, express)


def aside(rec, image, got, ccd, roe, groups, lo, hi, express):
    """The same pumping asked for in other ways."""
    ac = world.ac
    cols = image.shape[1]
    kw = I.direction(ccd, roe, groups, express=express, window_range=range(lo, hi + 1))
    rec.evals += 3
    back = np.asarray(ac.add_cti(image[:, ::-1].copy(), **kw))[:, ::-1]
    if not world.close(back, got):
        rec.violation("the order of the columns matters: " + world.worst(back, got), roe=roe, rows=[lo, hi])
    if lo == hi:
        kw["parallel_window_range"] = lo
        one = np.asarray(ac.add_cti(image.copy(), **kw))
        if not world.close(one, got):
            rec.violation("a pixel as an integer: " + world.worst(one, got), roe=roe, rows=[lo, hi])
    # only some of the columns
    a = cols // 3
    kw["parallel_window_range"] = range(lo, hi + 1)
    kw["serial_window_range"] = range(a, cols - 1)
    part = np.asarray(ac.add_cti(image.copy(), **kw))
    want = image.copy()
    want[:, a:cols - 1] = got[:, a:cols - 1]
    if not world.close(part, want):
        rec.violation("some columns only: " + world.worst(part, want), roe=roe, rows=[lo, hi])
    # in the serial direction
    serial = I.direction(ccd, roe, groups, prefix="serial", express=express, window_range=range(lo, hi + 1))
    across = np.asarray(ac.add_cti(image.T.copy(), **serial)).T
    if not world.close(across, got):
        rec.violation("serial pumping: " + world.worst(across, got), roe=roe, rows=[lo, hi])
