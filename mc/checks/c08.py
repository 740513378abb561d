"""Time windows: which transfers they implement, and that successive windows make up the readout."""
import itertools

import numpy as np

from mc import images as I, world

LEVEL = "model_checking"
RULE = (
    "(a) Every window of every readout in the bounds: the multipliers it leaves add up, with those of the "
    "adjoining windows, to those without it, and count the transfers of each pixel whose index is in it. "
    "(b) Every column over the alphabet with every window, full and express, against the reference readout "
    "(state: occupancy; transition: one row in one pass). (c) Every way to cut a readout into 2 or 3 "
    "successive windows, run one after another, against the readout in one go, also with serial clocking. "
    "Distinct: matrices, and (window, column, output) where the output differs from the input."
)
BOUNDS = {
    "quick": "(a) up to 8 pixels, offsets 0-2, every express; (b) columns of 1-3 pixels over 4 values, traps emptied or carried over; "
    "(c) columns of 1-4 pixels over 3 values, all cuts into 2 and 3; some windows of 20 to 140 pixels",
    "thorough": "(a) up to 16 pixels, offsets 0-4; (b) columns of up to 4 pixels over 4 values; (c) columns "
    "of up to 5 pixels, all cuts into 2, 3 and 4",
}
CCD3 = {"frac": [0.5, 0.2, 0.3], "full": 1000.0, "notch": 0.0, "power": 0.7}


def cases(tier):
    deep = tier == "thorough"
    for n in range(1, 17 if deep else 9):
        for offset in range(0, 5 if deep else 3):
            yield dict(part="matrix", n=n, offset=offset)
    for n in (33, 140) + ((300,) if deep else ()):
        for offset in (0, 130):
            yield dict(part="matrix", n=n, offset=offset)
        for name in ("instants", "mixed"):
            for kind, first, dtype, express in (("image", True, "float", 1), ("image", False, "int", 3), ("ci", True, "float", 2)):
                yield dict(
                    part="image", traps=I.TRAPS[name], rows=n, kind=kind, first=first, dtype=dtype,
                    express=express, offset=0 if kind == "ci" else 3, ccd=I.CCDS["plain"],
                )
    for n in (20,) + ((60,) if deep else ()):
        for name in ("instants", "dense-mixed"):
            for kind in ("image", "ci"):
                yield dict(
                    part="cuts", traps=I.TRAPS[name], rows=n, kind=kind, serial=False, force=True, offset=2, ccd=I.CCDS["plain"], pieces=3,
                )
    names = sorted(I.TRAPS) if deep else ("instants", "slow", "dense-slow", "dense-mixed")
    for name in names:
        for n in (1, 2, 3, 4) if deep else (1, 2, 3):
            for kind, first in (("image", True), ("image", False), ("ci", True)):
                for dtype in ("float", "int"):
                    for express in range(0, n + 1):
                        if dtype == "int" and express in (0, n):
                            continue
                        if not deep and n == 3 and (kind == "ci" or name == "slow") and express in (1, 3):
                            continue
                        for offset in (0, 1) if deep or express in (0, 2) else (0,):
                            for between in (True, False):
                                if not between and not deep and (name in ("slow", "dense-slow") or offset):
                                    continue
                                yield dict(
                                    part="image", traps=I.TRAPS[name], rows=n, kind=kind, first=first, dtype=dtype,
                                    express=express, offset=offset, ccd=I.CCDS["plain"], between=between,
                                )
    for name in names:
        for ccd in (I.CCDS["plain"], CCD3):
            p = len(ccd["frac"])
            for n in (1, 2, 3, 4, 5) if deep else (1, 2, 3, 4):
                if p > 1 and n > (4 if deep else 3):
                    continue
                for kind in ("image", "ci"):
                    for serial in (False, True) if kind == "image" else (False,):
                        for force in (True, False) if p > 1 and not serial else (True,):
                            for offset in (0, 1, 3) if n < (4 if deep else 3) else (0, 1):
                                if not deep and p > 1 and (n == 3) and (name == "slow" or offset):
                                    continue
                                if serial and not deep and (name == "slow" or n == 4):
                                    continue
                                yield dict(
                                    part="cuts", traps=I.TRAPS[name], rows=n, kind=kind, serial=serial,
                                    force=force, offset=offset, ccd=ccd, pieces=4 if deep and n < 5 else 3,
                                )


def matrices(rec, n, offset):
    runs = []
    for dtype in ("float", "int"):
        for first in (True, False):
            runs.append((dict(kind="image", dwell=[1.0], first=first, dtype=dtype), n + offset, None))
        for total in sorted({1, 2, n + offset, n + offset + 2}):
            runs.append((dict(kind="ci", dwell=[1.0], dtype=dtype, n=total), total, total))
    # carrying traps over between columns changes nothing of this
    runs += [(dict(spec, between=False), top, fixed) for spec, top, fixed in runs]
    for spec, top, fixed in runs:
        roe = world.roe(spec)
        expresses = sorted({0, 1, 2, 3, top // 2, top - 1, top}) if n > 5 else range(0, top + 1)
        for express in expresses:
            if express < 0:
                continue

            def matrix(a, b):
                m, watch = roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express(
                    pixels=n, express=express, offset=offset,
                    time_window_range=None if a is None else range(a, b),
                )
                rec.evals += 1
                rec.seen_arrays(np.asarray(m))
                return np.array(m, dtype=float), np.array(watch, dtype=bool)

            whole, watch_whole = matrix(None, None)
            edges = range(top + 1) if top < 33 else sorted({0, 1, top // 2, min(top, 128), min(top, 129), top - 1, top})
            part = {(a, b): matrix(a, b) for a, b in itertools.combinations(edges, 2)}
            what = dict(readout=spec, n=n, offset=offset, express=express)
            counts = [r + 1 + offset if fixed is None else fixed for r in range(n)]
            if not world.close(part[0, top][0], whole):
                rec.violation("the window of the whole readout changes the multipliers", **what)
            for (a, b), (m, watch) in part.items():
                if m.shape != whole.shape or np.any(m < -1e-12) or not np.all(np.isfinite(m)):
                    rec.violation("window (%d, %d): multipliers %s" % (a, b, m.tolist()), **what)
                    continue
                if watch.shape != watch_whole.shape or np.any(watch != watch_whole):
                    rec.violation("window (%d, %d): the traps are not followed outside it" % (a, b), **what)
                inside = [max(0, min(b, k) - a) for k in counts]
                if not world.close(m.sum(axis=0), inside):
                    rec.violation(
                        "window (%d, %d) implements %s transfers, should be %s"
                        % (a, b, m.sum(axis=0).tolist(), inside), **what)
                if b < top and not world.close(m + part[b, top][0], part[a, top][0]):
                    rec.violation("windows (%d, %d) and (%d, %d) do not add up" % (a, b, b, top), **what)


def image_case(case, rec):
    n, offset = case["rows"], case["offset"]
    roe = dict(kind=case["kind"], dwell=[0.8], first=case["first"], dtype=case["dtype"])
    if not case.get("between", True):
        roe["between"] = False
    top = n + offset
    if n > 10:
        image = I.tall(n, [700.0])
        edges = (0, 1, top // 2 + 1, top - 1, top)
    else:
        image = I.exhaustive(I.ALPHABET if n < 3 else [0.0, 6.0, 700.0], n)
        edges = range(top + 1)
    for a, b in itertools.combinations(edges, 2):
        I.against_model(
            rec, image, case["ccd"], roe, case["traps"], physics="real", express=case["express"],
            offset=offset, time_window=(a, b - 1), what="window (%d, %d): " % (a, b), atol=1e-6 if n > 10 else 1e-8,
        )
    if 2 < n < 10:
        # together with a window of rows
        I.against_model(
            rec, image[:, ::3], case["ccd"], roe, case["traps"], physics="real", express=case["express"],
            offset=offset, rows=[1, 2], time_window=(1, top - 1), what="rows 1-2, window (1, %d): " % top,
        )


def cuts(case, rec):
    n, offset = case["rows"], case["offset"]
    values = [0.0, 6.0, 700.0] if n < 4 else [0.0, 200.0, 6.0] if n == 4 else [0.0, 200.0]
    image = I.exhaustive(values, n) if n < 10 else I.tall(n, [200.0])
    if case["serial"]:
        image = image[:, :: 1 if n < 3 else 4]
    roe = dict(kind=case["kind"], dwell=[0.8] * len(case["ccd"]["frac"]), force=case["force"])
    kw = I.direction(case["ccd"], roe, case["traps"], offset=offset)
    if case["serial"]:
        kw.update(
            I.direction(
                I.CCDS["plain"], dict(kind="image", dwell=[1.0]), I.TRAPS["instants"], prefix="serial",
                express=1, offset=1,
            )
        )
    top = n + offset
    whole = np.array(world.ac.add_cti(image.copy(), **kw))
    for k in range(2, case["pieces"] + 1):
        for at in itertools.combinations(range(1, top) if n < 10 else (1, 2, 7, top // 2, top - 1), k - 1):
            edges = (0,) + at + (top,)
            img = image.copy()
            for a, b in zip(edges, edges[1:]):
                img = np.array(world.ac.add_cti(img, time_window_range=range(a, b), **kw))
            rec.evals += image.shape[1]
            rec.label("cuts")
            rec.seen_arrays(str(edges), img)
            if not world.close(img, whole):
                bad = [c for c in range(img.shape[1]) if not world.close(img[:, c], whole[:, c])] or [0]
                rec.violation(
                    "windows cut at %s do not make up the readout: %s" % (edges, world.worst(img, whole)),
                    column=image[:, bad[0]].tolist(), got=img[:, bad[0]].tolist(), want=whole[:, bad[0]].tolist(),
                )


def run_case(case, rec):
    if case["part"] == "matrix":
        matrices(rec, case["n"], case["offset"])
    elif case["part"] == "image":
        image_case(case, rec)
    else:
        cuts(case, rec)
    rec.sample(**case)
