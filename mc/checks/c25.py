"""The units of time and of charge are free."""
import numpy as np

from mc import images as I, world

LEVEL = "exploration"
RULE = (
    "Every column over the alphabet, for every configuration and pair of factors in the bounds: with all dwell times and lifetimes "
    "multiplied by the one and image, full well, notch and trap densities by the other, the output must be "
    "that of the original multiplied by the latter. Distinct, non-trivial: (configuration, factors, column, "
    "output) where the output differs from the input."
)
BOUNDS = {
    "quick": "all columns of 3 pixels over 4 values (continua: 2 pixels over 3); 9 mixtures of species and 3 continua; 3 readout modes, 1 and 3 phases; "
    "express 0 and 1; adding and removing; 4 pairs of factors, of time 1e-12 to 1e3, of charge 1e-12 to 1e9",
    "thorough": "all columns of 4 pixels over 4 values (continua: 3 over 3); also serial clocking; express 0-3; 12 pairs of factors",
}
ASSUMPTIONS = ["relative agreement to 1e-9 (continua, whose curves are found by quadrature: 1e-6)"]
CCD3 = {"frac": [0.5, 0.2, 0.3], "full": 1000.0, "notch": 3.0, "power": 0.7}
CONTINUA = {
    "cont": [[["cont", 20.0, 2.0, 0.4]]],
    "dense-cont": [[["cont", 900.0, 1.0, 0.7]]],
    "cont-mixed": [[["cont", 10.0, 2.0, 0.5]], [["instant", 20.0, 0.5]]],
}
FACTORS = [
    (1e-6, 1e-12), (1e3, 1e9), (1e-12, 1.0), (1.0, 0.37),
    (1e-6, 1.0), (1e3, 1.0), (1.0, 1e-3), (1.0, 1e5), (2.0 ** -20, 2.0 ** 10), (60.0, 1e-6), (0.1, 1e2), (86400.0, 1.0),
]


def scaled(x, f):
    return [v * f for v in x] if isinstance(x, list) else x * f


def rescale(ccd, roe, groups, t, q):
    ccd = dict(ccd, full=scaled(ccd["full"], q), notch=scaled(ccd["notch"], q))
    roe = dict(roe, dwell=scaled(roe["dwell"], t))
    out = []
    for g in groups:
        h = []
        for s in g:
            s = list(s)
            s[1] *= q
            s[2] *= t
            if s[0] == "slow":
                s[3] *= t
            h.append(s)
        out.append(h)
    return ccd, roe, out


def cases(tier):
    deep = tier == "thorough"
    factors = FACTORS if deep else FACTORS[:4]
    for name, groups in sorted(I.TRAPS.items()) + sorted(CONTINUA.items()):
        cont = name in CONTINUA
        for ccd in (I.CCDS["notch"], CCD3):
            p = len(ccd["frac"])
            for kind in ("image", "carried", "ci", "pump"):
                if cont and not deep and (kind in ("carried", "ci") or p > 1):
                    continue
                for express in (0, 1, 2, 3) if deep and not cont else (0, 1):
                    for prefix in ("parallel", "serial") if deep and not cont else ("parallel",):
                        for remove in (False, True) if kind == "image" and not cont else (False,):
                            for f in factors:
                                yield dict(
                                    name=name, traps=groups, ccd=ccd, kind=kind, express=express, prefix=prefix,
                                    remove=remove, factors=list(f), rows=(3 if deep else 2) if cont else 4 if deep else 3,
                                    values=[6.0, 40.0, 700.0] if cont else I.ALPHABET,
                                )


def run_case(case, rec):
    t, q = case["factors"]
    ccd, groups = case["ccd"], case["traps"]
    cont = any(s[0] == "cont" for g in groups for s in g)
    p = len(ccd["frac"])
    kind, prefix = case["kind"], case["prefix"]
    dwell = [0.7 / (1 + k) for k in range(2 * p if kind == "pump" else p)]
    roe = dict(kind=kind, dwell=dwell)
    if kind == "carried":
        roe = dict(kind="image", dwell=dwell, between=False, first=False)
    if kind == "pump":
        roe["n"] = 3
    image = world.all_columns(case["values"], case["rows"])

    def run(img, ccd, roe, groups):
        kw = I.direction(ccd, roe, groups, prefix=prefix, express=case["express"])
        if kind == "pump":
            kw[prefix + "_window_range"] = 1
        rec.evals += img.shape[1]
        given = img.copy() if prefix == "parallel" else img.T.copy()
        if case["remove"]:
            out = world.ac.remove_cti(given, iterations=2, **kw)
        else:
            out = world.ac.add_cti(given, **kw)
        return np.array(out) if prefix == "parallel" else np.array(out).T

    want = run(image, ccd, roe, groups)
    got = run(image * q, *rescale(ccd, roe, groups, t, q)) / q
    for c in range(image.shape[1]):
        if np.any(got[:, c] != image[:, c]):
            rec.seen_arrays(image[:, c], got[:, c], repr((case["name"], kind, t, q)))
    rtol, atol = (1e-6, 1e-5) if cont else (1e-9, 1e-8)
    if not world.close(got, want, rtol=rtol, atol=atol):
        bad = [c for c in range(image.shape[1]) if not world.close(got[:, c], want[:, c], rtol=rtol, atol=atol)] or [0]
        rec.violation(
            "times x %g, charges x %g: %s" % (t, q, world.worst(got, want)), column=image[:, bad[0]].tolist(),
            got=got[:, bad[0]].tolist(), want=want[:, bad[0]].tolist(),
        )
    rec.sample(**case)
