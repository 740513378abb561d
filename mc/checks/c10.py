"""Columns: independent when the traps are emptied between them, in order when they are not."""
import numpy as np

from mc import images as I, world

LEVEL = "model_checking"
RULE = (
    "Wide images in which every ordered pair of columns over the alphabet is adjacent (a de Bruijn sequence). "
    "Traps emptied: each column of the result must be that of the column on its own. Traps carried over: the "
    "result must be that of a reference readout (state: occupancy; transition: one row in one pass, with the "
    "implementation's trap managers as the physics) that goes through the columns in order, and cutting off "
    "the columns after any one must not change those before. Distinct: (previous column, column, output)."
)
BOUNDS = {
    "quick": "all ordered pairs of columns of 1-2 pixels over 4 values and of 3 pixels over 2 values; nine trap "
    "mixtures, imaging (both first-transfer settings, express 0-2, both multiplier types), injection and pumping; "
    "1 and 3 phases; charges down to 1e-7; runs of up to 257 columns (33000 of one pixel); images of 33 and 140 rows",
    "thorough": "all ordered pairs of columns of 1-2 pixels over 4 values and of 3-4 pixels over 3 values; runs of up to 6562 columns (70000 of one pixel)",
}
CCD3 = {"frac": [0.5, 0.2, 0.3], "full": 1000.0, "notch": 0.0, "power": 0.7}
CCD2 = {"frac": [0.4, 0.6], "full": 1000.0, "notch": 2.0, "power": 0.7}


FAINT = [[[["instant", 0.01, 2.0]]], [[["slow", 0.01, 2.0, 0.3]], [["instant", 0.004, 9.0]]]]


def de_bruijn(k):
    """A cyclic sequence of 0..k-1 in which every ordered pair is adjacent, opened up."""
    out, edges = [], {i: list(range(k)) for i in range(k)}
    stack = [0]
    while stack:
        v = stack[-1]
        if edges[v]:
            stack.append(edges[v].pop())
        else:
            out.append(stack.pop())
    return out[::-1]


def cases(tier):
    deep = tier == "thorough"
    sets = [(1, I.ALPHABET), (2, I.ALPHABET), (3, [0.0, 400.0] if not deep else [0.0, 6.0, 700.0])]
    if deep:
        sets.append((4, [0.0, 6.0, 700.0]))
    roes = []
    for between in (True, False):
        for first in (True, False):
            for express in (0, 1, 2):
                for dtype in ("float", "int") if express == 2 else ("float",):
                    roes.append((dict(kind="image", dwell=[0.8], between=between, first=first, dtype=dtype), express))
        roes.append((dict(kind="ci", dwell=[0.8], between=between), 0))
        roes.append((dict(kind="ci", dwell=[0.8], between=between), 2))
    for n, alphabet in sets:
        for name, groups in sorted(I.TRAPS.items()):
            for roe, express in roes:
                if not deep and n == 2 and (roe["dtype"] if "dtype" in roe else "") == "int":
                    continue
                if not deep and n != 1 and roe["between"] and name in ("instant", "slow", "three"):
                    continue
                yield dict(rows=n, alphabet=alphabet, traps=groups, ccd=I.CCDS["plain"], roe=roe, express=express, offset=0)
    for n, alphabet in [(3, [0.0, 400.0]), (5, None)]:
        for name in ("dense", "mixed", "slows"):
            for roe, express in roes:
                if roe.get("dtype") != "int" and express == 1 or n == 5 and express > 2:
                    continue
                e = 4 if n == 5 and roe.get("dtype") == "int" else express
                yield dict(rows=n, alphabet=alphabet, traps=I.TRAPS[name], ccd=I.CCDS["notch"], roe=roe, express=e, offset=1 if n == 3 else 0)
    for rows in (33, 140) + ((300,) if deep else ()):
        for name in ("instants", "mixed"):
            for between in (True, False):
                for roe, express in (
                    (dict(kind="image", dwell=[0.8], between=between), 1),
                    (dict(kind="image", dwell=[0.8], between=between, first=False, dtype="int"), 2),
                    (dict(kind="ci", dwell=[0.8], between=between), 2),
                ):
                    yield dict(rows=rows, alphabet="tall", traps=I.TRAPS[name], ccd=I.CCDS["plain"], roe=roe, express=express, offset=0)
    # very small charges, of which the traps leave some and keep some
    for groups in FAINT:
        for roe, express in roes:
            if roe.get("dtype") != "int":
                yield dict(rows=2, alphabet=[0.0, 1e-7, 9e-4, 0.3], traps=groups, ccd=I.CCDS["plain"], roe=roe, express=express, offset=0)
                if roe["between"]:
                    yield dict(rows=3, alphabet=[0.0, 9e-4], traps=groups, ccd=I.CCDS["plain"], roe=roe, express=express, offset=0)
    # thousands of columns
    for columns in (1100, 33000) + ((70000,) if deep else ()):
        for name, express in (("instants", 1), ("dense", 1), ("slow", 0)):
            if columns < 2000 or name == "instants" or deep:
                yield dict(
                    rows=1, alphabet=I.ALPHABET, traps=I.TRAPS[name], ccd=I.CCDS["plain"], roe=dict(kind="image", dwell=[0.8], first=name != "dense"),
                    express=express, offset=0, columns=columns,
                )
    for ccd in (CCD2, CCD3):
        p = len(ccd["frac"])
        for name in ("instants", "dense-mixed"):
            for between in (True, False):
                for force in (True, False):
                    for express in (0, 1):
                        yield dict(
                            rows=2, alphabet=[0.0, 6.0, 700.0] if deep else [0.0, 400.0], traps=I.TRAPS[name], ccd=ccd,
                            roe=dict(kind="image", dwell=[0.5] * p, between=between, force=force), express=express, offset=0,
                        )
    for name in ("instants", "slows", "dense-mixed"):
        for express in (0, 1):
            yield dict(
                rows=2, alphabet=[6.0, 100.0, 700.0], traps=I.TRAPS[name],
                ccd={"frac": [0.0, 1.0], "full": 1000.0, "notch": 0.0, "power": 0.8},
                roe=dict(kind="pump", dwell=[0.5] * 4, n=3), express=express, offset=0, window=[0, 1],
            )


def run_case(case, rec):
    n = case["rows"]
    if case["alphabet"] == "tall":
        every = I.tall(n, [700.0])[:, [0, 2, 4, 7]]
    elif case["alphabet"] is None:
        every = np.array([[0.0] * 5, [0, 200.0, 0, 0, 0], [6.0, 0, 0, 700.0, 0], [0, 0, 0, 0, 900.0], [40.0, 40.0, 40.0, 0, 6.0]]).T
    else:
        every = I.exhaustive(case["alphabet"], n)
    order = de_bruijn(every.shape[1])
    order = order * (case.get("columns", 0) // len(order) + 1)
    wide = every[:, order]
    roe, groups, ccd = case["roe"], case["traps"], case["ccd"]
    kw = I.direction(ccd, roe, groups, express=case["express"], offset=case["offset"])
    if "window" in case:
        kw["parallel_window_range"] = range(case["window"][0], case["window"][1] + 1)
    rec.sample(**case)
    scale = min(1.0, every.max())
    if roe.get("between", True):
        got = np.array(world.ac.add_cti(wide.copy(), **kw))
        alone = [np.array(world.ac.add_cti(every[:, [i]].copy(), **kw))[:, 0] for i in range(every.shape[1])]
        rec.evals += wide.shape[1] + every.shape[1]
        rec.traces += wide.shape[1]
        rec.states += len({a.tobytes() for a in alone})
        rec.transitions += wide.shape[1]
        for j, i in enumerate(order):
            if np.any(got[:, j] != wide[:, j]):
                rec.seen_arrays(wide[:, max(0, j - 1)], wide[:, j], got[:, j])
            if not world.close(got[:, j], alone[i], atol=1e-10 * scale**2, rtol=1e-12):
                rec.violation(
                    "column %d after %d others differs from itself alone: %s" % (i, j, world.worst(got[:, j], alone[i])),
                    columns=wide[:, max(0, j - 2) : j + 1].T.tolist(), got=got[:, j].tolist(), want=alone[i].tolist(),
                )
                return
        rec.label("independent")
        return
    rec.label("carried over")
    got, ok = I.against_model(
        rec, wide, ccd, roe, groups, physics="real", express=case["express"], offset=case["offset"],
        what="traps carried over: ", atol=1e-6 if n > 10 else 1e-8 * scale**2,
    )
    if ok:
        got = np.array(got)
        for m in (1, 2, wide.shape[1] // 2):
            short = np.array(world.ac.add_cti(wide[:, :m].copy(), **kw))
            rec.evals += m
            if not world.close(short, got[:, :m], atol=1e-10 * scale**2, rtol=1e-12):
                rec.violation(
                    "the first %d columns depend on those after: %s" % (m, world.worst(short, got[:, :m])),
                    image=wide[:, : m + 2].tolist(),
                )
