"""Shared pieces of the image-level checks."""
import itertools

import numpy as np

from mc import readout, world

CCDS = {
    "plain": {"frac": [1.0], "full": 1000.0, "notch": 0.0, "power": 0.8},
    "notch": {"frac": [1.0], "full": 1000.0, "notch": 5.0, "power": 0.5},
}
TRAPS = {
    "instant": [[["instant", 20.0, 2.0]]],
    "instants": [[["instant", 20.0, 2.0], ["instant", 8.0, 0.4]]],
    "slow": [[["slow", 20.0, 2.0, 0.3]]],
    "slows": [[["slow", 20.0, 2.0, 0.3], ["slow", 30.0, 7.0, 1.5]]],
    "mixed": [[["instant", 20.0, 2.0]], [["slow", 25.0, 5.0, 0.3]]],
    "three": [[["instant", 12.0, 2.0]], [["slow", 15.0, 0.7, 0.3]], [["instant", 9.0, 30.0]]],
    "dense": [[["instant", 900.0, 2.0], ["instant", 400.0, 0.5]]],
    "dense-slow": [[["slow", 900.0, 2.0, 0.3], ["slow", 300.0, 9.0, 0.1]]],
    "dense-mixed": [[["instant", 700.0, 2.0]], [["slow", 800.0, 5.0, 0.3]]],
}
ALPHABET = [0.0, 6.0, 40.0, 700.0]


def form(groups):
    if len(groups) > 1:
        return "nested"
    return "flat" if len(groups[0]) > 1 else "bare"


def exhaustive(alphabet, n_rows):
    return world.all_columns(alphabet, n_rows)


def sparse(n_rows, values, at_most=2):
    """Every column with at most `at_most` bright pixels of the given values."""
    cols = [np.zeros(n_rows)]
    for k in range(1, at_most + 1):
        for where in itertools.combinations(range(n_rows), k):
            for v in itertools.product(values, repeat=k):
                c = np.zeros(n_rows)
                c[list(where)] = v
                cols.append(c)
    return np.array(cols).T.copy()


def tall(n_rows, values):
    """Every placement of one or two bright pixels at the ends and in the middle of a long column, a column
    that is bright throughout, one that rises, and one that falls in ever smaller clouds (each of which leaves
    one more level behind)."""
    at = sorted({0, n_rows // 2, n_rows - 1})
    cols = []
    for v in values:
        for k in (1, 2):
            for where in itertools.combinations(at, k):
                c = np.zeros(n_rows)
                c[list(where)] = v
                cols.append(c)
        cols.append(np.full(n_rows, v))
    cols.append(np.linspace(0.0, max(values), n_rows))
    cols.append(np.linspace(max(values), 0.0, n_rows))
    return np.array(cols).T.copy()


def columns(spec):
    """spec: ["all", alphabet, n_rows] | ["sparse", n_rows, values, at_most] | ["tall", n_rows, values]"""
    if spec[0] == "all":
        return exhaustive(spec[1], spec[2])
    if spec[0] == "tall":
        return tall(spec[1], spec[2])
    return sparse(spec[1], spec[2], spec[3])


def direction(ccd, roe, groups, trap_form=None, prefix="parallel", **options):
    """Keyword arguments of add_cti for one direction."""
    out = {
        prefix + "_ccd": world.ccd(ccd),
        prefix + "_roe": world.roe(roe),
        prefix + "_traps": world.traps(groups, trap_form or form(groups)),
    }
    for k, v in options.items():
        out[prefix + "_" + k] = v
    return out


def against_model(
    rec, image, ccd, roe, groups, physics="model", express=0, offset=0, rows=None, columns=None,
    time_window=None, what="", atol=1e-8,
):
    """Run add_cti on the image and compare with the explicit readout of the model."""
    options = dict(express=express, offset=offset)
    if rows is not None:
        options["window_range"] = rows if isinstance(rows, range) else range(rows[0], rows[-1] + 1)
    kw = direction(ccd, roe, groups, **options)
    if columns is not None:
        kw["serial_window_range"] = range(columns[0], columns[-1] + 1)
    if time_window is not None:
        kw["time_window_range"] = range(time_window[0], time_window[-1] + 1)
    got = world.ac.add_cti(image.copy(), **kw)
    if physics == "model":
        traps = world.model_traps(ccd, groups)
    else:
        traps = world.real_traps(ccd, groups, image.shape[0] + offset)
    want = np.array(
        readout.read_out(
            image.tolist(), roe, traps, express=express, offset=offset, rows=rows,
            columns=columns, time_window=time_window,
        )
    )
    rec.evals += image.shape[1]
    rec.traces += image.shape[1]
    rec.transitions += traps.transitions
    rec.states += len(traps.visited)
    for k, v in traps.flags.items():
        rec.label(k, v)
    for c in range(image.shape[1]):
        if np.any(got[:, c] != image[:, c]):
            rec.seen_arrays(image[:, c], got[:, c])
    if not world.close(got, want, atol=atol):
        bad = [c for c in range(image.shape[1]) if not world.close(got[:, c], want[:, c], atol=atol)] or [0]
        c = bad[0]
        rec.violation(
            what + world.worst(got, want), column=image[:, c].tolist(), got=np.asarray(got)[:, c].tolist(),
            want=want[:, c].tolist(), n_bad_columns=len(bad), ccd=ccd, roe=roe, traps=groups,
            express=express, offset=offset, rows=rows, columns=columns, time_window=time_window,
        )
        return got, False
    return got, True
