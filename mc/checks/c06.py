"""Windows of rows and columns against the full image and against the sub-image."""
import numpy as np

from mc import images as I, world

LEVEL = "exploration"
RULE = (
    "For every contiguous window of rows (as a range and, for one row, as an integer) and of columns, every "
    "column over the alphabet and every configuration in the bounds: pixels outside are compared with the "
    "input, those inside with the full image or with the sub-image behind an offset; also every window of rows "
    "together with every time window. Distinct, non-trivial: "
    "(window, column, output) where the output differs from the input."
)
BOUNDS = {
    "quick": "all columns of 4 pixels (3 phases: 3 pixels) over 3 values; 1 and 3 phases; imaging and injection; parallel and serial; "
    "offsets 0 and 2; express 0 (outside pixels: also 1, 2); some windows of 20 and 140 pixels; columns in steps of 2 and 3 and backwards, rows in steps",
    "thorough": "all columns of 5 pixels (2-4 phases: 4 pixels) over 4 values; 1-4 phases; offsets 0-2",
}
CCD3 = {"frac": [0.5, 0.2, 0.3], "full": 1000.0, "notch": 0.0, "power": 0.7}
CCD2 = {"frac": [0.4, 0.6], "full": 1000.0, "notch": 2.0, "power": 0.7}
CCD4 = {"frac": [0.4, 0.1, 0.3, 0.2], "full": 1000.0, "notch": 0.0, "power": 0.7}


def cases(tier):
    deep = tier == "thorough"
    for name in ("instants", "dense-slow"):
        for offset in (0, 1, 2):
            yield dict(
                both=True, ccd=I.CCDS["plain"], traps=I.TRAPS[name], offset=offset, rows=5 if deep else 4, columns=3,
                alphabet=[0.0, 6.0, 700.0],
            )
    for ccd in (I.CCDS["plain"], CCD3):
        for name in ("instants", "dense-mixed"):
            for prefix in ("parallel", "serial"):
                for n in (20, 70, 140) if deep else (20, 140):
                    yield dict(
                        large=True, ccd=ccd, traps=I.TRAPS[name], kind="image", first=True, force=True, offset=0,
                        prefix=prefix, express=0, rows=n,
                    )
    n = 5 if deep else 4
    ccds = [I.CCDS["plain"], CCD3] + ([CCD2, CCD4] if deep else [])
    for ccd in ccds:
        p = len(ccd["frac"])
        for name in ("instants", "dense-slow", "mixed", "dense") if deep else ("instants", "dense-slow", "dense-mixed"):
            for kind in ("image", "ci"):
                for first in (True, False) if kind == "image" else (True,):
                    for force in (True, False) if p > 1 else (True,):
                        for offset in (0, 1, 2) if deep else (0, 2):
                            for prefix in ("parallel", "serial"):
                                for express in (0, 1, 2):
                                    if express and (offset or not first):
                                        continue
                                    if not deep and (
                                        (offset and name == "dense-slow")
                                        or (prefix == "serial" and name != "instants")
                                    ):
                                        continue
                                    yield dict(
                                        ccd=ccd, traps=I.TRAPS[name], kind=kind, first=first, force=force,
                                        offset=offset, prefix=prefix, express=express,
                                        rows=n if p == 1 else n - 1,
                                        alphabet=I.ALPHABET if deep else [0.0, 6.0, 700.0],
                                    )


def both_windows(case, rec):
    """Windows of rows, of columns and of time together: serial clocking reaches exactly the rows that are in
    the window of rows and are read out during the time window, in the columns of the window."""
    n, m, offset = case["rows"], case["columns"], case["offset"]
    few = I.exhaustive(case["alphabet"], m).T
    few = few[:: max(1, len(few) // 9)]
    stack = np.concatenate([np.roll(few, -k, axis=0)[:n] for k in range(0, len(few), 2)], axis=0)
    images = [stack[k : k + n] for k in range(0, len(stack) - n + 1, n)]
    kw = I.direction(case["ccd"], dict(kind="image", dwell=[0.8]), case["traps"], prefix="serial", express=0, offset=1)
    kw["parallel_offset"] = offset
    par = I.direction(case["ccd"], dict(kind="image", dwell=[0.8]), case["traps"], prefix="parallel", express=0, offset=offset)
    spans = [None] + [range(a, b) for a in range(n) for b in range(a + 1, n + 1)]
    spans += [range(a, n, step) for a in (0, 1) for step in (2, 3)] + [range(n - 1, -1, -1)]
    times = [None] + [range(a, b) for a in range(n + offset) for b in range(a + 1, n + offset + 1)]
    for image in images:
        serial = np.array(world.ac.add_cti(image, **kw))
        for rows in spans:
            for time in times:
                extra = {}
                if rows is not None:
                    extra["parallel_window_range"] = rows
                if time is not None:
                    extra["time_window_range"] = time
                inside = [
                    r for r in range(n)
                    if (rows is None or r in rows) and (time is None or r + offset in time)
                ]
                want = image.copy()
                want[inside] = serial[inside]
                got = np.array(world.ac.add_cti(image, **kw, **extra))
                rec.evals += n
                rec.label("rows x time windows, serial")
                if np.any(got != image):
                    rec.seen_arrays(str(rows), str(time), image, got)
                out = [r for r in range(n) if r not in inside]
                if not np.array_equal(got[out], image[out]) or not world.close(got, want):
                    rec.violation(
                        "serial clocking with windows of rows and time: " + world.worst(got, want),
                        rows=str(rows), time=str(time), image=image.tolist(), got=got.tolist(), want=want.tolist(),
                    )
                # parallel: nothing outside the rows changes; from the readout edge, as the full image
                if rows is None or time is None or rows.step < 0:
                    continue
                got = np.array(world.ac.add_cti(image, **par, **extra))
                rec.label("rows x time windows, parallel")
                out = [r for r in range(n) if r not in rows]
                if not np.array_equal(got[out], image[out]):
                    rec.violation(
                        "pixels outside the rows changed, with a time window too", rows=str(rows), time=str(time),
                        image=image.tolist(), got=got.tolist(),
                    )
                if rows[0] == 0 and rows.step == 1:
                    want = np.array(world.ac.add_cti(image, **par, time_window_range=time))
                    if not world.close(got[rows], want[rows]):
                        rec.violation(
                            "window from the readout edge differs from the full image, with a time window: "
                            + world.worst(got[rows], want[rows]),
                            rows=str(rows), time=str(time), image=image.tolist(), got=got.tolist(), want=want.tolist(),
                        )
    rec.sample(**case)


def run_case(case, rec):
    if case.get("both"):
        return both_windows(case, rec)
    n, prefix, offset = case["rows"], case["prefix"], case["offset"]
    if case.get("large"):
        image = I.tall(n, [700.0])[:, ::2]
        windows = [(0, 1), (n // 2, n // 2 + 2), (n - 2, n), (n - 1, n)] + ([(0, 17)] if n < 30 else [])
    else:
        image = I.exhaustive(case["alphabet"], n)
        windows = [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
    roe = dict(kind=case["kind"], dwell=[0.8] * len(case["ccd"]["frac"]), first=case["first"], force=case["force"])
    total = n + offset  # injection transfers of the full image
    other = "serial" if prefix == "parallel" else "parallel"

    def run(img, window=None, cols=None, off=offset, n_transfers=None):
        spec = dict(roe, n=n_transfers) if n_transfers else roe
        kw = I.direction(case["ccd"], spec, case["traps"], prefix=prefix, express=case["express"], offset=off)
        if window is not None:
            kw[prefix + "_window_range"] = window
        if cols is not None:
            kw[other + "_window_range"] = cols
        if n_transfers and prefix == "parallel":
            kw["time_window_range"] = range(n_transfers)
        img = np.array(img)
        rec.evals += img.shape[1]
        if prefix == "parallel":
            return np.array(world.ac.add_cti(img, **kw))
        return np.array(world.ac.add_cti(img.T.copy(), **kw)).T

    def fail(message, a, b, window):
        bad = [c for c in range(a.shape[1]) if not world.close(a[:, c], b[:, c])] or [0]
        rec.violation(
            message + ": " + world.worst(a, b), window=str(window), column=image[:, bad[0]].tolist(),
            got=a[:, bad[0]].tolist(), want=b[:, bad[0]].tolist(),
        )

    full = run(image) if case["express"] == 0 and n < 30 else None
    multi = len(case["ccd"]["frac"]) > 1
    for a, b in windows:
        for window in [range(a, b)] + ([a] if b == a + 1 else []):
            got = run(image, window)
            for c in range(image.shape[1]):
                if np.any(got[:, c] != image[:, c]):
                    rec.seen_arrays(str(window), image[:, c], got[:, c])
            keep = [
                r for r in range(n)
                if not (a <= r < b) and not (multi and (r == b or (r == a - 1 and not case["force"])))
            ]
            rec.label("row windows")
            if not np.array_equal(got[keep], image[keep]):
                fail("pixels outside the rows changed", got[keep], image[keep], window)
                continue
            if case["express"]:
                continue
            sub = run(
                image[a:b], off=offset + a,
                n_transfers=total if case["kind"] == "ci" else None,
            )
            if not world.close(got[a:b], sub):
                fail("window differs from the sub-image", got[a:b], sub, window)
            if a == 0 and (case["force"] or not multi) and full is not None and not world.close(got[:b], full[:b]):
                fail("window from the readout edge differs from the full image", got[:b], full[:b], window)
    if case["express"] or full is None:
        return
    m = image.shape[1]
    few = image[:, :: max(1, m // 7)]
    full = run(few)
    k = few.shape[1]
    for a in range(k):
        for b in range(a + 1, k + 1):
            for cols in [range(a, b)] + ([a] if b == a + 1 else []):
                got = run(few, cols=cols)
                want = few.copy()
                want[:, a:b] = full[:, a:b]
                rec.label("column windows")
                if not world.close(got, want) or not np.array_equal(
                    np.delete(got, np.arange(a, b), axis=1), np.delete(few, np.arange(a, b), axis=1)
                ):
                    fail("window of columns differs from the full image there", got, want, cols)
    # every other column, every third, and from the last to the first
    for cols in {range(a, k, step) for a in (0, 1) for step in (2, 3)} | {range(k - 1, -1, -1), range(k - 1, 0, -2)}:
        got = run(few, cols=cols)
        want = few.copy()
        want[:, list(cols)] = full[:, list(cols)]
        rec.label("column windows with steps")
        if not world.close(got, want) or not np.array_equal(
            np.delete(got, list(cols), axis=1), np.delete(few, list(cols), axis=1)
        ):
            fail("window of columns with steps differs from the full image there", got, want, cols)
    # rows with steps: the others are not touched
    if not multi and n > 2:
        for window in (range(0, n, 2), range(1, n, 2), range(0, n, 3)):
            got = run(few, window)
            rec.label("row windows with steps")
            keep = [r for r in range(n) if r not in window]
            if not np.array_equal(got[keep], few[keep]):
                fail("pixels outside the rows changed", got[keep], few[keep], window)
    rec.sample(**case)
