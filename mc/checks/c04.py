"""Every express setting accounts for every transfer exactly once."""
import numpy as np

from mc import images as I, world

LEVEL = "exploration"
RULE = (
    "For every (readout class, pixels or window, express, offset, multiplier type, first-transfer option) "
    "in the bounds: the multipliers of each pixel are summed over the passes, and the total loss of a "
    "saturated pixel to traps that never release, which is proportional to its number of transfers, is "
    "measured through add_cti. Non-trivial: at least one multiplier differs from 0 and 1; distinct by "
    "the matrix or image produced."
)
BOUNDS = {
    "quick": "matrices: up to 16 pixels (windows: 7), express 0 to transfers+2, offsets 0-3, up to 16 pumps and "
    "injection transfers; images: up to 6 rows; with a few express values, matrices of up to 300 pixels, pumps and injection transfers, offsets up to 300, and images of as many rows",
    "thorough": "matrices: up to 40 pixels (windows: 12), offsets 0-6, up to 40 pumps; images: up to 12 rows; with a few express values, up to 1030 pixels",
}


def cases(tier):
    deep = tier == "thorough"
    for n in (33, 64, 130, 257, 300) + ((600, 1030) if deep else ()):
        yield dict(part="large", n=n, deep=deep)
    for n in range(1, 41 if deep else 17):
        yield dict(part="matrix", n=n, offsets=list(range(7 if deep else 4)))
        yield dict(part="pump", n=n)
        if n <= (12 if deep else 7):
            yield dict(part="windows", n=n, offsets=[0, 1, 3])
        if n <= (12 if deep else 6):
            for offset in (0, 1, 3):
                for dtype in ("float", "int"):
                    yield dict(part="image", n=n, offset=offset, dtype=dtype)


def check_matrix(rec, what, matrix, expected, full, is_int):
    m = np.asarray(matrix, dtype=float)
    rec.evals += 1
    if m.ndim != 2 or m.shape[1] != len(expected):
        rec.violation("matrix of shape %s for %d pixels" % (m.shape, len(expected)), **what)
        return
    if np.any((m != 0) & (m != 1)):
        rec.seen_arrays(m)
        rec.label("matrices with multipliers other than 0 and 1")
    if not np.all(np.isfinite(m)) or np.any(m < 0):
        rec.violation("a multiplier is negative", matrix=m.tolist(), **what)
    elif not world.close(m.sum(axis=0), expected):
        rec.violation(
            "transfers counted: %s, actual: %s" % (m.sum(axis=0).tolist(), list(expected)),
            matrix=m.tolist(), **what,
        )
    elif is_int and np.any(m != np.round(m)):
        rec.violation("a multiplier is not a whole number", matrix=m.tolist(), **what)
    elif full and not np.all((m == 0) | (m == 1)):
        rec.violation("the full computation does not do every transfer separately", matrix=m.tolist(), **what)


def some(top):
    """A few express values, for sizes where not all can be tried."""
    return sorted({0, 1, 2, 3, 7, top // 2, top - 1, top, top + 1} - {-1})


def large(rec, n, deep):
    offsets = (0, 1, 130, 300) if n < 100 or deep else (0, 129)
    for offset in offsets if n < 600 else (0, 5):
        imaging(rec, n, offset, n, some)
    imaging(rec, n, 3, range(n - 3, n), some)
    imaging(rec, n, 0, range(n // 2, n // 2 + 2), some)
    pumps(rec, n, some)
    # charge lost from one pixel near, and one far from, the readout
    density = 0.5
    image = np.zeros((n, 3))
    at = [0, n // 2, n - 1]
    image[at, range(3)] = 5000.0
    for first, dtype, express in ((True, "float", 1), (False, "float", 2), (True, "int", 5)):
        roe = dict(kind="image", dwell=[1.0], first=first, dtype=dtype)
        for offset in (0, 130):
            kw = I.direction(I.CCDS["plain"], roe, [[["instant", density, 1e30]]], express=express, offset=offset)
            got = np.asarray(world.ac.add_cti(image.copy(), **kw))
            rec.evals += 3
            rec.seen_arrays(got, repr(roe), express)
            lost = image.sum(axis=0) - got.sum(axis=0)
            want = [density * (r + 1 + offset) for r in at]
            if not world.close(lost, want):
                rec.violation(
                    "charge lost by pixels at %s: %s, should be: %s" % (at, lost.tolist(), want), readout=roe,
                    rows=n, offset=offset, express=express,
                )


def imaging(rec, n, offset, pixels, which=None):
    rows = list(range(pixels)) if isinstance(pixels, int) else list(pixels)
    top = rows[-1] + 1
    for dtype in ("float", "int"):
        for first in (True, False):
            roe = world.roe(dict(kind="image", dwell=[1.0], first=first, dtype=dtype))
            for express in which(top + offset) if which else range(0, top + offset + 3):
                what = dict(
                    readout="imaging", pixels=str(pixels), offset=offset, express=express,
                    dtype=dtype, first=first,
                )
                m, _ = roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express(
                    pixels=pixels, express=express, offset=offset
                )
                check_matrix(
                    rec, what, m, [r + 1 + offset for r in rows],
                    express == 0 or express >= top + offset, dtype == "int",
                )
        for n_transfers in [None] + sorted({1, 2, top, top + offset + 2, 2 * top + 1}):
            roe = world.roe(dict(kind="ci", dwell=[1.0], dtype=dtype, n=n_transfers))
            # only asked for with a whole image, where the default is unambiguous
            if n_transfers is None and not isinstance(pixels, int):
                continue
            want = top + offset if n_transfers is None else n_transfers
            for express in which(want) if which else range(0, want + 3):
                what = dict(
                    readout="charge injection", pixels=str(pixels), offset=offset, express=express,
                    dtype=dtype, n_pixel_transfers=n_transfers,
                )
                m, _ = roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express(
                    pixels=pixels, express=express, offset=offset
                )
                check_matrix(
                    rec, what, m, [want] * len(rows), express == 0 or express >= want, dtype == "int"
                )


def pumps(rec, n, which=None):
    for dtype in ("float", "int"):
        for first in (True, False):
            roe = world.roe(dict(kind="pump", dwell=[0.5, 0.5], first=first, dtype=dtype, n=n))
            for express in which(n) if which else range(0, n + 3):
                for pixels in (0, 3, [2], [0, 1, 4], range(2, 4)):
                    m, _ = roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express(
                        pixels=pixels, express=express
                    )
                    k = 1 if isinstance(pixels, int) else len(pixels)
                    check_matrix(
                        rec,
                        dict(readout="trap pumping", n_pumps=n, express=express, dtype=dtype,
                             first=first, pixels=str(pixels)),
                        m, [n] * k, express == 0 or express >= n, dtype == "int",
                    )


def image_case(rec, n, offset, dtype):
    """Each pixel alone in its column, saturated; traps that fill at once and never release."""
    density = 0.5
    image = np.eye(n) * 5000.0
    groups = [[["instant", density, 1e30]]]
    ccd = I.CCDS["plain"]
    runs = []
    for first in (True, False):
        runs.append((dict(kind="image", dwell=[1.0], first=first, dtype=dtype), n + offset, None))
    for n_transfers in [None, 1, 2, n + offset + 3]:
        total = n + offset if n_transfers is None else n_transfers
        runs.append((dict(kind="ci", dwell=[1.0], dtype=dtype, n=n_transfers), total, total))
    for roe, top, fixed in runs:
        full = None
        for express in [0] + list(range(1, top + 3)):
            kw = I.direction(ccd, roe, groups, express=express, offset=offset)
            if fixed is not None:
                kw["time_window_range"] = range(fixed)
            got = np.asarray(world.ac.add_cti(image.copy(), **kw))
            rec.evals += 1
            rec.seen_arrays(got, repr(sorted(roe.items(), key=str)), express)
            lost = np.diag(image) - np.diag(got)
            want = [density * (r + 1 + offset if fixed is None else fixed) for r in range(n)]
            what = dict(readout=roe, rows=n, offset=offset, express=express)
            if not world.close(lost, want):
                rec.violation(
                    "charge lost by each row: %s, should be: %s" % (lost.tolist(), want), **what
                )
            if express == 0:
                full = got
            elif express >= top and not world.close(got, full):
                rec.violation("asking for all passes is not the full computation: " + world.worst(got, full), **what)


def run_case(case, rec):
    n = case["n"]
    if case["part"] == "matrix":
        for offset in case["offsets"]:
            imaging(rec, n, offset, n)
    elif case["part"] == "windows":
        for offset in case["offsets"]:
            for a in range(n):
                imaging(rec, n, offset, range(a, n))
                if a < n - 1:
                    imaging(rec, n, offset, range(a, a + 1))
    elif case["part"] == "large":
        large(rec, n, case["deep"])
    elif case["part"] == "pump":
        pumps(rec, n)
    else:
        image_case(rec, n, case["offset"], case["dtype"])
    rec.sample(**case)
