"""Charge is only ever delayed: cumulative sums of every column, before and after."""
import numpy as np

from mc import images as I, world

LEVEL = "exploration"
RULE = (
    "Every column over the alphabet, for every configuration in the bounds: no pixel of the output is negative, the charge in "
    "the rows up to any given one is no more than in the input, leading empty rows stay empty, and a column without "
    "charge or without traps does not change. Distinct, non-trivial: (column, output) where traps acted."
)
BOUNDS = {
    "quick": "all columns of up to 5 pixels over 4 values and sparse columns of 10 (fewer for several phases); abundant and scarce traps of every kind; imaging "
    "and injection; 1-4 phases (a few with 5-8); offsets 0 and 3 (some 120, 150); charges down to 1e-7; some columns of 25, 40 and 120 pixels; all row windows of 4 pixels; parallel and serial",
    "thorough": "all columns of up to 6 pixels over 5 values (7 over 3), sparse columns of 20; 1-6 phases (a few with 7, 8); all row windows of 5 pixels",
}
TRAPS = dict(
    I.TRAPS, **{
        "scarce": [[["instant", 0.3, 2.0], ["instant", 0.2, 11.0]]],
        "swamped": [[["instant", 5e4, 3.0]]],
        "swamped slow": [[["slow", 5e4, 3.0, 0.01], ["slow", 2e4, 0.5, 0.3]]],
        "zero capture": [[["slow", 900.0, 2.0, 0.0], ["slow", 300.0, 9.0, 0.1]]],
        "faint": [[["instant", 0.01, 2.0]]],
        "faint groups": [[["slow", 0.01, 2.0, 0.3]], [["instant", 0.004, 9.0]]],
        "groups": [[["instant", 600.0, 1.0]], [["instant", 600.0, 4.0]], [["slow", 600.0, 0.5, 0.2]], [["slow", 1e4, 50.0, 0.2]]],
    }
)
MIXTURES = [name for name in sorted(TRAPS) if not name.startswith("faint")]
WELLS = {
    1: [I.CCDS["plain"], I.CCDS["notch"], {"frac": [1.0], "full": 1000.0, "notch": 0.0, "power": 0.1}],
    2: [{"frac": [0.4, 0.6], "full": 1000.0, "notch": 2.0, "power": 0.7}],
    3: [{"frac": [0.5, 0.2, 0.3], "full": 1000.0, "notch": 0.0, "power": 0.7}, {"frac": [0.0, 0.0, 1.0], "full": 1000.0, "notch": 0.0, "power": 1.0}],
    4: [{"frac": [0.25] * 4, "full": [1000.0, 900.0, 800.0, 700.0], "notch": 0.0, "power": 0.5}],
    5: [{"frac": [0.2] * 5, "full": 1000.0, "notch": 0.0, "power": 0.5}],
    6: [{"frac": [0.0, 0.5, 0.0, 0.0, 0.5, 0.0], "full": 1000.0, "notch": 0.0, "power": 0.8}],
}
MANY = {n: {"frac": [1.0 / n] * n, "full": 1000.0, "notch": 0.0, "power": 0.6} for n in (5, 6, 7, 8)}


def cases(tier):
    deep = tier == "thorough"
    for name in MIXTURES:
        for n, phases in ((25, 1), (120, 1), (40, 2)) if not deep else ((40, 1), (140, 1), (300, 1), (60, 3)):
            if n > 30 and (name not in ("instants", "slow", "dense-mixed", "scarce") or phases > 1 and not deep and name not in ("instants", "scarce")):
                continue
            yield dict(ccd=WELLS[phases][0], traps=name, kind="image", cols=["tall", n, [700.0]], offset=0, window=None)
            if n < 50:
                yield dict(ccd=WELLS[phases][0], traps=name, kind="ci", cols=["tall", n, [1700.0, 3.0]], offset=120, window=None)
        for kind in ("image", "ci"):
            yield dict(ccd=I.CCDS["notch"], traps=name, kind=kind, cols=["all", [4.0, 1000.0, 1600.0], 3], offset=0, window=None)
            yield dict(ccd=I.CCDS["plain"], traps=name, kind=kind, cols=["all", [0.0, 6.0, 700.0], 2], offset=150, window=None)
    # very small charges, in neighbouring columns
    for name in ("faint", "faint groups"):
        for kind in ("image", "ci"):
            for cols in (["all", [0.0, 1e-7, 9e-4, 0.3], 3], ["sparse", 6, [9e-4, 1e-6], 2]):
                yield dict(ccd=I.CCDS["plain"], traps=name, kind=kind, cols=cols, offset=0, window=None)
    for phases in (5, 6, 7, 8):
        for name in MIXTURES if deep else ("dense-mixed", "groups", "slows"):
            for kind in ("image", "ci"):
                for cols in (["all", [0.0, 3.0, 900.0], 2], ["sparse", 4, [900.0], 1]):
                    yield dict(ccd=MANY[phases], traps=name, kind=kind, cols=cols, offset=0, window=None)
    for phases in (1, 2, 3, 4, 5, 6) if deep else (1, 2, 3, 4):
        for i, ccd in enumerate(WELLS[phases]):
            for name in MIXTURES:
                for kind in ("image", "ci"):
                    if phases == 1:
                        sets = [["all", I.ALPHABET, n] for n in (1, 2, 3, 4)]
                        sets += [["all", I.ALPHABET if deep else [0.0, 3.0, 900.0], 5], ["sparse", 10, [900.0, 3.0], 2 if deep or i == 0 and kind == "image" else 1]]
                        if deep:
                            sets += [["all", [0.0, 3.0, 900.0], 6], ["sparse", 20, [900.0, 3.0], 2]]
                    else:
                        sets = [["all", I.ALPHABET, n] for n in ((1, 2) if not deep else (1, 2, 3) if phases > 3 else (1, 2, 3, 4))]
                        sets += [["all", [0.0, 3.0, 900.0], 3]] if not deep and phases < 4 else []
                        sets += [["sparse", 6 if deep or phases < 4 else 4, [900.0, 3.0], 1]]
                    for cols in sets:
                        for offset in (0, 3) if cols[2 if cols[0] == "all" else 1] in ((2, 3) if deep or phases == 1 else (2,)) else (0,):
                            yield dict(ccd=ccd, traps=name, kind=kind, cols=cols, offset=offset, window=None)
                    if i == 0 and (phases == 1 or phases == 3 and kind == "image" or deep):
                        rows = 5 if deep and phases == 1 else 4 if phases == 1 else 3
                        for lo in range(rows):
                            for hi in range(lo, rows):
                                if (lo, hi) != (0, rows - 1):
                                    yield dict(ccd=ccd, traps=name, kind=kind, cols=["all", [0.0, 3.0, 900.0], rows], offset=0, window=[lo, hi])


def run_case(case, rec):
    ac = world.ac
    ccd = case["ccd"]
    phases = len(ccd["frac"])
    roe = dict(kind=case["kind"], dwell=[round(0.3 + 0.4 * ((2 * k) % phases), 2) for k in range(phases)])
    image = I.columns(case["cols"])
    if case["cols"][0] == "tall":
        image = image[:, ::3]
    groups = TRAPS[case["traps"]]
    window = None if case["window"] is None else range(case["window"][0], case["window"][1] + 1)
    rec.sample(**case)
    got = None
    for way in ("parallel", "serial"):
        kw = I.direction(ccd, roe, groups, prefix=way, offset=case["offset"], window_range=window)
        out = np.asarray(ac.add_cti(image if way == "parallel" else image.T, **kw))
        out = out if way == "parallel" else out.T
        rec.evals += image.shape[1]
        problems = judge(image, out)
        for message, c in problems:
            rec.violation(
                way + ": " + message, column=image[:, c].tolist(), got=out[:, c].tolist(), ccd=ccd, roe=roe, traps=groups,
                window=case["window"], offset=case["offset"],
            )
        if problems:
            return
        for c in range(image.shape[1]):
            if np.any(out[:, c] != image[:, c]):
                rec.seen_arrays(image[:, c], out[:, c])
        if image.shape[1] > 100:
            break
    # with no traps
    none = [[s[:1] + [0.0] + s[2:] for s in g] for g in groups]
    few = image[:, :: max(1, image.shape[1] // 16)]
    for traps in (world.traps(none), None):
        kw = I.direction(ccd, roe, groups, offset=case["offset"], window_range=window)
        kw["parallel_traps"] = traps
        out = np.asarray(ac.add_cti(few, **kw))
        rec.evals += few.shape[1]
        if not np.array_equal(out, few):
            rec.violation("without traps the image changes: " + world.worst(out, few), ccd=ccd, roe=roe, traps="None" if traps is None else none)
            return


def judge(image, out):
    found = []
    slack = 1e-9 * np.maximum(min(1.0, image.max()) ** 2, image.sum(axis=0))
    if not np.all(np.isfinite(out)):
        return [("not finite", int(np.argwhere(~np.isfinite(out))[0][1]))]
    low = out.min(axis=0)
    if low.min() < 0:
        found.append(("a negative pixel: %g" % low.min(), int(np.argmin(low))))
    excess = (np.cumsum(out, axis=0) - np.cumsum(image, axis=0)).max(axis=0) - slack
    if excess.max() > 0:
        c = int(np.argmax(excess))
        found.append(("more charge up to some row than there was: %g" % (excess[c] + slack[c]), c))
    for c in range(image.shape[1]):
        charged = np.nonzero(image[:, c])[0]
        first = charged[0] if len(charged) else image.shape[0]
        if np.any(out[:first, c] != 0):
            found.append(("charge before the first in the column", c))
            break
    return found
