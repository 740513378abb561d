"""Charge injection against explicit clocking of the column a given number of times."""
import numpy as np

from mc import images as I, readout, world

LEVEL = "model_checking"
RULE = (
    "Every column over the alphabet, read out by the reference model that takes it n times past the traps of "
    "one pixel (state: trap occupancy; transition: one row passing the traps in one pass), must equal add_cti in "
    "charge-injection mode. Distinct, non-trivial: (column, output) pairs where traps acted. The multipliers "
    "are also checked on their own: each pixel's add up to n, never negative, whole for integer multipliers."
)
BOUNDS = {
    "quick": "all columns of up to 4 pixels over 3-4 values, nine trap mixtures; 1 to 2 x rows + 3 transfers (and the "
    "default); every express value up to n+1; both multiplier types; row windows; offsets 0 and 2; 3 phases; "
    "carried-over traps on all images of 3 columns; some columns of 33, 140 and 270 pixels, 200 and 260 transfers, an offset of 140",
    "thorough": "all columns of up to 5 pixels over 4 values; two wells; 1-4 phases; up to 3 x rows transfers",
}
KEY = "default-time-window"
ASSUMPTIONS = [
    "more transfers than image rows plus offset are asked for with an explicit time window; without one they are a known finding"
]
CCD3 = {"frac": [0.5, 0.2, 0.3], "full": 1000.0, "notch": 0.0, "power": 0.7}


def cases(tier):
    deep = tier == "thorough"
    top = 40 if deep else 16
    yield {"part": "multipliers", "top": top}
    for name in ("instants", "slow", "mixed"):
        for rows, n, offset, express in (
            (140, None, 0, 1), (33, None, 7, 2), (3, 200, 0, 3), (2, 260, 0, 0), (3, None, 140, 3), (140, 3, 0, 0), (270, None, 0, 2),
        ) + (((20, None, 0, 0), (3, 1000, 0, 7), (600, None, 0, 1)) if deep else ()):
            for dtype in ("float", "int") if express > 1 else ("float",):
                yield dict(
                    part="image", cols=["tall", rows, [700.0]], traps=I.TRAPS[name], ccd=I.CCDS["plain"], dwell=[1.0], n=n,
                    offset=offset, express=express, dtype=dtype, window=None,
                )
        for n in (None, 2):
            yield dict(
                part="image", cols=["all", [3.0, 1000.0, 1600.0], 3], traps=I.TRAPS[name], ccd=I.CCDS["notch"], dwell=[0.01], n=n,
                offset=0, express=0, dtype="float", window=None,
            )
    sizes = (1, 2, 3, 4, 5) if deep else (1, 2, 3, 4)
    for ccd, dwell in [(I.CCDS["plain"], [1.0]), (CCD3, [0.5, 0.8, 1.0])] + (
        [(I.CCDS["notch"], [0.7])] if deep else []
    ):
        phases = len(ccd["frac"])
        for i, (name, groups) in enumerate(sorted(I.TRAPS.items())):
            for rows in sizes:
                if phases > 1 and rows > (3 if deep else 2):
                    continue
                if rows >= 5 and "three" in name:
                    continue
                few = [0.0, 6.0, 700.0]
                cols = ["all", few if rows > (4 if deep else 3) or phases > 1 and not deep else I.ALPHABET, rows]
                if phases > 1 and not deep and i % 2:
                    continue
                limit = 3 * rows if deep else 2 * rows + 3 if rows < 4 else rows + 2
                for n in [None] + list(range(1, limit + 1)):
                    for offset in (0, 2):
                        if offset and n not in (None, rows, rows + 2):
                            continue
                        total = rows + offset if n is None else n
                        values = range(total + 2) if deep or rows < 3 else sorted({0, 1, 2, total - 1, total, total + 1} - {-1})
                        for express in values:
                            for dtype in ("float", "int"):
                                if dtype == "int" and (express in (0, 1) or express >= total):
                                    continue
                                if not deep and rows > 2 and i % 3 and (dtype == "int" or express > 1):
                                    continue
                                yield dict(
                                    part="image", cols=cols, traps=groups, ccd=ccd, dwell=dwell, n=n, offset=offset,
                                    express=express, dtype=dtype, window=None,
                                )
                if rows >= 2:
                    for lo in range(rows):
                        for hi in range(lo, rows):
                            if not deep and rows == 4 and i % 2:
                                continue
                            for n in (None, 2, rows):
                                for express in (0, 2):
                                    yield dict(
                                        part="image", cols=cols, traps=groups, ccd=ccd, dwell=dwell, n=n, offset=0,
                                        express=express, dtype="float", window=[lo, hi],
                                    )
    for name, groups in sorted(I.TRAPS.items()):
        for n in (None, 1, 3):
            for express in (0, 1, 2):
                for between in (True, False):
                    yield dict(part="columns", traps=groups, n=n, express=express, between=between)


def multipliers(rec, top):
    for dtype in ("float", "int"):
        for pixels in range(1, top + 1):
            for offset in (0, 1, 5):
                for n in [None] + list(range(1, top + 1)):
                    roe = world.roe(dict(kind="ci", dwell=[1.0], n=n, dtype=dtype))
                    total = pixels + offset if n is None else n
                    for express in range(0, total + 2):
                        m, _ = roe.express_matrix_and_monitor_traps_matrix_from_pixels_and_express(
                            pixels=pixels, express=express, offset=offset
                        )
                        m = np.asarray(m, dtype=float)
                        rec.evals += 1
                        want = readout.injection_passes(range(pixels), total, express, dtype)
                        ok = (
                            m.shape[1] == pixels and (m >= 0).all()
                            and np.all(np.abs(m.sum(axis=0) - total) < 1e-9)
                            and (dtype == "float" or np.all(m == np.round(m)))
                        )
                        if ok:
                            used = [float(x[0]) for x in want if x]
                            got = [r[0] for r in m if r.any()]
                            ok = len(used) == len(got) and np.allclose(sorted(used), sorted(got), atol=1e-12)
                            ok = ok and all(np.all(r == r[0]) for r in m)
                        if not ok:
                            rec.violation("multipliers", pixels=pixels, offset=offset, n=n, express=express,
                                          dtype=dtype, got=m.tolist()[:6], total=total)
                            return
                        if 0 < express < total:
                            rec.seen("m", dtype, total, express)


def run_case(case, rec):
    if case["part"] == "multipliers":
        multipliers(rec, case["top"])
        return
    if case["part"] == "columns":
        image = world.all_columns([0.0, 6.0, 700.0], 2)
        image = np.concatenate([image, image[:, ::-1]], axis=1)
        roe = dict(kind="ci", dwell=[1.0], n=case["n"], between=case["between"])
        time = range(max(2, case["n"] or 0))
        I.against_model(rec, image, I.CCDS["plain"], roe, case["traps"], express=case["express"], time_window=time)
        return
    roe = dict(kind="ci", dwell=case["dwell"], n=case["n"], dtype=case["dtype"])
    image = I.columns(case["cols"])
    rows = image.shape[0]
    window = case["window"]
    total = rows + case["offset"] if case["n"] is None else case["n"]
    atol = 1e-6 if rows > 10 or (case["n"] or 0) > 100 else 1e-8
    physics = "model" if len(case["ccd"]["frac"]) == 1 else "real"
    kw = dict(
        physics=physics, express=case["express"], offset=case["offset"], atol=atol,
        rows=None if window is None else range(window[0], window[1] + 1),
    )
    rec.sample(**case)
    if total <= rows + case["offset"]:
        rec.label("up to one transfer per row")
        I.against_model(rec, image, case["ccd"], roe, case["traps"], **kw)
        return
    rec.label("more transfers than rows")
    I.against_model(rec, image, case["ccd"], roe, case["traps"], time_window=range(total), **kw)
    # without an explicit time window
    options = I.direction(case["ccd"], roe, case["traps"], express=case["express"], offset=case["offset"])
    got = world.ac.add_cti(image.copy(), **options)
    traps = world.model_traps(case["ccd"], case["traps"]) if physics == "model" else world.real_traps(case["ccd"], case["traps"])
    want = readout.read_out(image.tolist(), roe, traps, express=case["express"], offset=case["offset"])
    if not world.close(got, want, atol=atol):
        cut = readout.read_out(
            image.tolist(), roe, traps, express=case["express"], offset=case["offset"],
            time_window=range(rows + case["offset"]),
        )
        rec.violation(
            "without a time window: " + world.worst(got, want), key=KEY if world.close(got, cut, atol=atol) else None,
            roe=roe, ccd=case["ccd"], traps=case["traps"], express=case["express"], rows=rows,
        )
