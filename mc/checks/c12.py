"""CTI removal: the fixed-point iteration it documents, with every option, and what it converges to."""
import itertools

import numpy as np

from mc import images as I, world

LEVEL = "exploration"
RULE = (
    "(a) Every set of options from the menu (each clocking option on its own and all pairs), images over the "
    "alphabet and 0 to N iterations: remove_cti against the iteration written out with add_cti. (b) Images over "
    "the alphabet with CTI added: the largest error of the iterates against the original. Distinct, non-trivial: "
    "(options, image, iterations, output) where the output differs from the input."
)
BOUNDS = {
    "quick": "(a) 26 images (two with negative pixels), 18 options, iterations 0-8, and their pairs, iterations 0-3; (b) all columns of 4 pixels over 3 values, "
    "5 trap mixtures, 6 iterations",
    "thorough": "(a) 200 images (two with negative pixels), iterations 0-20 (pairs 0-5); (b) all columns of 5 pixels over 4 values, 6 trap mixtures, 10 iterations",
}
CCD2 = {"frac": [0.4, 0.6], "full": 1000.0, "notch": 2.0, "power": 0.7}


def menu():
    P = I.direction(I.CCDS["plain"], dict(kind="image", dwell=[1.0]), I.TRAPS["instants"])
    S = I.direction(I.CCDS["notch"], dict(kind="image", dwell=[0.5]), I.TRAPS["slow"], prefix="serial")
    return [
        ("nothing else", {}),
        ("serial", S),
        ("parallel express", dict(parallel_express=1)),
        ("parallel express 2", dict(parallel_express=2)),
        ("parallel offset", dict(parallel_offset=3)),
        ("parallel window", dict(parallel_window_range=range(1, 2))),
        ("parallel window index", dict(parallel_window_range=1)),
        ("serial window", dict(serial_window_range=range(0, 2))),
        ("serial window index", dict(serial_window_range=1)),
        ("time window", dict(time_window_range=range(1, 2))),
        ("parallel roe", dict(parallel_roe=world.roe(dict(kind="image", dwell=[3.0], first=False)))),
        ("charge injection", dict(parallel_roe=world.roe(dict(kind="ci", dwell=[1.0])))),
        ("parallel ccd", dict(parallel_ccd=world.ccd(I.CCDS["notch"]))),
        ("two phases", dict(
            parallel_ccd=world.ccd(CCD2), parallel_roe=world.roe(dict(kind="image", dwell=[0.5, 1.0])))),
        ("parallel traps", dict(parallel_traps=world.traps(I.TRAPS["mixed"]))),
        ("no parallel traps", dict(parallel_traps=None)),
        ("serial express and offset", dict(S, serial_express=1, serial_offset=2)),
        ("serial roe and ccd", dict(
            S, serial_ccd=world.ccd(CCD2), serial_roe=world.roe(dict(kind="image", dwell=[0.5, 1.0], force=False)))),
    ], P


def pictures(tier):
    out = []
    values = itertools.product([0.0, 60.0, 700.0], repeat=6)
    step = 37 if tier == "quick" else 4
    for i, v in enumerate(values):
        if i % step == 0:
            out.append(np.array(v).reshape((2, 3) if i % 2 else (3, 2)))
    out.append(np.array([[0, 500, 30], [700, 0, 40]]))  # integers
    out.append(np.array([[800.0]]))
    out.append(np.array([[0.0, 300.0, 800.0, 0.0], [0.0, 0.0, 60.0, 1200.0], [40.0, 700.0, 0.0, 0.0], [0.0, 0.0, 0.0, 5.0]]))
    # noise around zero
    out.insert(0, np.array([[-3.0, 500.0, 0.0], [700.0, -0.5, 60.0]]))
    out.insert(7, np.array([[-40.0], [900.0], [-2.0], [5.0]]))
    return out


LIGHT = {
    "instant": [[["instant", 12.0, 2.0]]],
    "instants": [[["instant", 8.0, 2.0], ["instant", 5.0, 0.4]]],
    "slow": [[["slow", 12.0, 2.0, 0.3]]],
    "mixed": [[["instant", 6.0, 2.0]], [["slow", 8.0, 5.0, 0.3]]],
    "cold": [[["instant", 12.0, 30.0]]],
    "fast": [[["slow", 15.0, 0.3, 0.5]]],
}


def cases(tier):
    n = 18
    for i in range(n):
        for j in range(i, n):
            yield dict(part="options", a=i, b=j, tier=tier)
    for name in sorted(LIGHT):
        for express in (0, 1, 2):
            for serial in (False, True):
                for kind in ("image", "ci"):
                    if kind == "ci" and (serial or express == 2):
                        continue
                    if tier == "quick" and (name == "fast" or (serial and express)):
                        continue
                    yield dict(part="inverse", traps=LIGHT[name], express=express, serial=serial, kind=kind, tier=tier)


def options(case, rec):
    opts, base = menu()
    a, b = opts[case["a"]], opts[case["b"]]
    kw = dict(base, **a[1])
    kw.update(b[1])
    every = pictures(case["tier"])
    if case["a"] != case["b"] and case["tier"] == "quick":
        every = every[(case["a"] + case["b"]) % 4 : -1 : 4] + every[-1:]
    for image in every:
        if case["a"] != case["b"] and image.size == 1:
            continue
        rows, cols = image.shape
        k = dict(kw)
        for name, size in (("parallel_window_range", rows), ("serial_window_range", cols)):
            w = k.get(name)
            if w is not None:
                w = range(w, w + 1) if isinstance(w, int) else w
                w = [r for r in w if r < size] or [0]
                k[name] = w[0] if isinstance(kw[name], int) else range(w[0], w[-1] + 1)
        estimate = np.array(image, dtype=float)
        given = image.copy()
        last = 4 if case["tier"] == "quick" else 6
        if case["a"] == case["b"]:
            last = 9 if case["tier"] == "quick" else 21
        for n in range(0, last):
            got = np.array(world.ac.remove_cti(given, n, **k))
            rec.evals += 1
            if not world.close(got, estimate):
                rec.violation(
                    "%d iterations with %s and %s: %s" % (n, a[0], b[0], world.worst(got, estimate)),
                    image=image.tolist(), got=got.tolist(), want=estimate.tolist(),
                )
                return
            if n and np.any(got != image):
                rec.seen_arrays(str((a[0], b[0], n)), image, got)
            if not np.array_equal(given, image):
                rec.violation("the image passed in was changed", image=image.tolist())
                return
            estimate = estimate + (image - np.array(world.ac.add_cti(estimate.copy(), **k)))
    rec.label("options")


def inverse(case, rec):
    quick = case["tier"] == "quick"
    image = I.exhaustive([20.0, 90.0, 800.0] if quick else [20.0, 90.0, 300.0, 800.0], 4 if quick else 5)
    kw = I.direction(
        I.CCDS["plain"], dict(kind=case["kind"], dwell=[1.0]), case["traps"], express=case["express"]
    )
    if case["serial"]:
        image = image[:, :24]
        kw.update(
            I.direction(I.CCDS["plain"], dict(kind="image", dwell=[0.7]), LIGHT["slow"], prefix="serial", express=1)
        )
    trailed = np.array(world.ac.add_cti(image.copy(), **kw))
    before = None
    estimate = trailed.copy()
    for n in range(0, 7 if quick else 11):
        got = np.array(world.ac.remove_cti(trailed.copy(), n, **kw))
        if not world.close(got, estimate):
            rec.violation("%d iterations: %s" % (n, world.worst(got, estimate)), image=image.tolist())
            return
        estimate = estimate + (trailed - np.array(world.ac.add_cti(estimate.copy(), **kw)))
        error = np.max(np.abs(got - image), axis=None if case["serial"] else 0)
        rec.evals += image.shape[1]
        if n:
            rec.seen_arrays(got)
        if before is not None and np.any(error > before * (1 + 1e-9) + 1e-7):
            c = int(np.argmax(np.atleast_1d(error - before)))
            rec.violation(
                "the error grows from %.6g to %.6g at iteration %d"
                % (np.atleast_1d(before)[c], np.atleast_1d(error)[c], n),
                image=(image if case["serial"] else image[:, c]).tolist(),
            )
            return
        if n == 0:
            first = error
        before = error
    if np.any(before > 0.1 * first + 1e-6):
        rec.violation("after %d iterations the error is still %s of %s" % (n, before.tolist(), first.tolist()))
    rec.label("inverse")
    rec.label("largest remaining error below 1e-3", int(np.max(before) < 1e-3))


def run_case(case, rec):
    (options if case["part"] == "options" else inverse)(case, rec)
    rec.sample(**case)
