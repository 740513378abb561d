"""An offset against explicit empty rows in front of the image."""
import itertools

import numpy as np

from mc import images as I, world

LEVEL = "exploration"
RULE = (
    "Every column over the alphabet, for every configuration in the bounds: the rows with an offset of k "
    "must equal those of the image with k empty rows in front. Distinct, non-trivial: (offset, column, "
    "output) where the output differs from the input."
)
BOUNDS = {
    "quick": "all columns of up to 4 pixels over 3-4 values; offsets 1-3; full computation, and all express values that "
    "compute the same passes; imaging and injection; 1 and 3 phases; both first-transfer settings; parallel and serial; float and int multipliers; "
    "both directions at once, offsets 0-2 each, all images of shape 2x2, 1x3, 3x1 over 3 values; some columns with offsets 17, 70 and 140, and of 140 pixels; 300, 700 and 33000 rows (express 1)",
    "thorough": "all columns of up to 5 pixels over 4 values; offsets 1-6; 1-4 phases; both directions up to 2x3, offsets 0-3; 70000 rows",
}
CCD3 = {"frac": [0.5, 0.2, 0.3], "full": 1000.0, "notch": 0.0, "power": 0.7}
CCD2 = {"frac": [0.4, 0.6], "full": 1000.0, "notch": 2.0, "power": 0.7}


def cases(tier):
    deep = tier == "thorough"
    for total in ((70000,) if deep else ()) + (33000, 700, 300):
        for i in range(len(HUGE)):
            for prefix in ("parallel", "serial"):
                if total < 1000 or deep or prefix == "parallel" and i == 0:
                    yield dict(total=total, traps=i, prefix=prefix)
    for shape in [(2, 2), (1, 3), (3, 1)] + ([(2, 3), (3, 2)] if deep else []):
        for k in range(0, 4 if deep else 3):
            for j in range(0, 4 if deep else 3):
                for kind, first, express in (("image", True, 0), ("image", False, 0), ("ci", True, 0), ("image", True, 1)):
                    if express >= shape[0]:
                        continue
                    for names in (("instants", "slow"), ("dense-mixed", "dense")):
                        yield dict(
                            shape=shape, kind=kind, first=first, express=express, offset=k, serial_offset=j,
                            traps=names[0], serial_traps=names[1],
                            alphabet=[0.0, 6.0, 700.0] if shape[0] * shape[1] < 5 else [6.0, 700.0],
                        )
    for ccd in (I.CCDS["plain"], CCD3):
        for name in ("instants", "mixed", "dense-slow"):
            for kind, first, express in (("image", True, 0), ("image", True, 1), ("image", False, 2), ("image", False, 0), ("ci", True, 3)):
                for n, offset in ((3, 140), (2, 17), (140, 2), (3, 70)) + (((3, 300), (40, 140)) if deep else ()):
                    if not deep and (
                        express == 0 and (n > 10 or offset > 17) and (len(ccd["frac"]) > 1 or name == "dense-slow" or n + offset > 80)
                        or len(ccd["frac"]) > 1 and (offset == 70 or n > 10 and name != "mixed")
                        or name == "dense-slow" and express > 1
                    ):
                        continue
                    for prefix in ("parallel", "serial"):
                        yield dict(
                            ccd=ccd, traps=I.TRAPS[name], rows=n, kind=kind, first=first, dtype="float",
                            express=express, offset=offset, prefix=prefix, alphabet=[40.0, 700.0],
                            few=3 if express == 0 and offset > 17 else 1,
                        )
    for ccd in [I.CCDS["plain"], CCD3] + ([CCD2, I.CCDS["notch"]] if deep else []):
        p = len(ccd["frac"])
        names = sorted(I.TRAPS) if deep else ("instants", "slows", "mixed", "dense", "dense-mixed", "dense-slow")
        for name in names:
            for n in (1, 2, 3, 4, 5) if deep else (1, 2, 3, 4) if p == 1 else (1, 3):
                for kind, first in (("image", True), ("image", False), ("ci", True)):
                    for dtype in ("float", "int"):
                        for offset in (1, 2, 3, 6) if deep else (1, 2, 3):
                            # the first transfers are only treated separately below the number of rows
                            top = n if kind == "image" and first else n + offset + 1
                            if not deep and offset == 3:
                                top = min(top, 2)
                            for express in range(0, top):
                                if dtype == "int" and express == 0:
                                    continue
                                for prefix in ("parallel", "serial"):
                                    if not deep and (
                                        (prefix == "serial" and (name not in ("instants", "dense-slow") or p > 1))
                                        or (dtype == "int" and name in ("instants", "mixed"))
                                        or (kind == "ci" and name not in ("dense", "mixed"))
                                    ):
                                        continue
                                    yield dict(
                                        ccd=ccd, traps=I.TRAPS[name], rows=n, kind=kind, first=first, dtype=dtype,
                                        express=express, offset=offset, prefix=prefix,
                                        alphabet=I.ALPHABET if deep or n < 4 else [0.0, 6.0, 700.0],
                                    )


HUGE = [[["instant", 2e-3, 1.0], ["instant", 5e-4, 40.0]]], [[["slow", 2e-3, 1.0, 0.02]]]


def huge(case, rec):
    """Images of thousands of rows, all but the last few of them empty."""
    last = np.array([[0.0, 700.0, 0.0, 6.0, 0.0, 900.0, 40.0, 0.0, 0.0, 1.0]]).T
    k = case["total"] - len(last)
    kw = I.direction(I.CCDS["plain"], dict(kind="image", dwell=[1.0], first=False), HUGE[case["traps"]], prefix=case["prefix"], express=1)
    turn = (lambda x: x) if case["prefix"] == "parallel" else np.transpose
    got = turn(np.array(world.ac.add_cti(turn(last).copy(), **dict(kw, **{case["prefix"] + "_offset": k}))))
    want = turn(np.array(world.ac.add_cti(turn(np.vstack([np.zeros((k, 1)), last])).copy(), **kw)))
    rec.evals += 2
    rec.seen_arrays(got)
    # charges of the order of the effect of many thousand transfers
    if not world.close(got, want[k:], rtol=1e-8):
        rec.violation("offset differs from %d explicit rows: %s" % (k, world.worst(got, want[k:])), got=got.tolist(), want=want[k:].tolist())
    if np.any(want[:k] != 0):
        rec.violation("charge appears in the empty rows in front", rows=np.flatnonzero(want[:k])[:10].tolist())


def both(case, rec):
    """Both directions at once: rows in front for the one and columns for the other."""
    shape, k, j = case["shape"], case["offset"], case["serial_offset"]
    for values in itertools.product(case["alphabet"], repeat=shape[0] * shape[1]):
        image = np.array(values).reshape(shape)

        def run(img, k, j):
            roe = dict(kind=case["kind"], dwell=[0.8], first=case["first"])
            kw = I.direction(I.CCDS["plain"], roe, I.TRAPS[case["traps"]], express=case["express"], offset=k)
            kw.update(I.direction(
                I.CCDS["notch"], dict(kind="image", dwell=[0.3]), I.TRAPS[case["serial_traps"]], prefix="serial", offset=j,
            ))
            if not k:
                del kw["parallel_offset"]
            if not j:
                del kw["serial_offset"]
            rec.evals += 1
            return np.array(world.ac.add_cti(img, **kw))

        got = run(image.copy(), k, j)
        want = run(np.pad(image, ((k, 0), (j, 0))), 0, 0)
        rec.label("both directions")
        if np.any(got != image):
            rec.seen_arrays(image, got)
        if not world.close(got, want[k:, j:]):
            rec.violation(
                "offsets differ from explicit rows and columns: " + world.worst(got, want[k:, j:]),
                image=image.tolist(), got=got.tolist(), want=want.tolist(),
            )


def run_case(case, rec):
    if "total" in case:
        huge(case, rec)
        rec.sample(**case)
        return
    if "shape" in case:
        both(case, rec)
        rec.sample(**case)
        return
    if case["rows"] > 10:
        image = I.tall(case["rows"], case["alphabet"][-1:])
    else:
        image = I.exhaustive(case["alphabet"], case["rows"])[:, :: case.get("few", 1)]
    k, prefix = case["offset"], case["prefix"]
    roe = dict(
        kind=case["kind"], dwell=[0.8] * len(case["ccd"]["frac"]), first=case["first"], dtype=case["dtype"]
    )

    def run(img, offset):
        kw = I.direction(
            case["ccd"], roe, case["traps"], prefix=prefix, express=case["express"], offset=offset
        )
        rec.evals += img.shape[1]
        if prefix == "parallel":
            return np.array(world.ac.add_cti(img.copy(), **kw))
        return np.array(world.ac.add_cti(img.T.copy(), **kw)).T

    got = run(image, k)
    want = run(np.vstack([np.zeros((k, image.shape[1])), image]), 0)
    for c in range(image.shape[1]):
        if np.any(got[:, c] != image[:, c]):
            rec.seen_arrays(image[:, c], got[:, c])
    if not world.close(got, want[k:]):
        bad = [c for c in range(image.shape[1]) if not world.close(got[:, c], want[k:, c])] or [0]
        rec.violation(
            "offset differs from explicit rows: " + world.worst(got, want[k:]), column=image[:, bad[0]].tolist(),
            got=got[:, bad[0]].tolist(), want=want[:, bad[0]].tolist(),
        )
    if not world.close(want[:k], np.zeros((k, image.shape[1]))):
        rec.violation("charge appears in the empty rows in front", want=want[:k].tolist())
    rec.sample(**case)
