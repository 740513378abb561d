"""Multi-phase clocking: the clock sequence against the geometry, and its effect on images."""
import numpy as np

from mc import images as I, readout, world

LEVEL = "model_checking"
RULE = (
    "(a) Every step and phase of every clock sequence in the bounds against the positions of the clouds "
    "and traps. (b) Every column over the alphabet, read out by a reference model that moves the clouds by "
    "that geometry (state: occupancy of every phase; transition: one phase in one step) with the "
    "implementation's trap managers as the physics, must equal add_cti. Distinct: (column, output) pairs "
    "where traps acted, and clock sequences."
)
BOUNDS = {
    "quick": "sequences of 1-20 phases, imaging, injection and pumping, both release settings; images of up to 3 "
    "pixels over 4 values with 2-4 phases (of 2 pixels with 5-8), traps in every single phase and in all, one dwell of zero; some columns of 20 and 140 pixels",
    "thorough": "sequences of 1-32 phases; images of up to 4 pixels over 4 values with 2-6 phases, of 2 pixels with 5-12; some columns of 33, 70 and 140 pixels",
}
GROUPS = {
    "instant": [[["instant", 30.0, 2.0]]],
    "slow": [[["slow", 30.0, 2.0, 0.3]]],
    "mixed": [[["instant", 300.0, 1.0]], [["slow", 250.0, 5.0, 0.3]]],
}


def layouts(n, deep):
    """Where the traps are."""
    out = [[0.0] * k + [1.0] + [0.0] * (n - 1 - k) for k in range(n)]
    w = [float(k + 1) for k in range(n)]
    out.append([x / sum(w) for x in w])
    return out


def cases(tier):
    deep = tier == "thorough"
    for p in range(1, 33 if deep else 21):
        yield dict(part="sequence", phases=p)
    # long columns, clouds at and above the full well
    for p in (2, 3, 4) if deep else (2, 3):
        for frac in layouts(p, deep)[-2:]:
            for force in (True, False):
                for kind in ("image", "ci"):
                    for name in sorted(GROUPS):
                        dwell = [round(0.4 + 0.3 * k, 3) for k in range(p)]
                        for express, n in ((0, 33), (1, 70), (2, 140)) if deep else ((0, 20), (1, 140)):
                            yield dict(
                                part="image", phases=p, frac=frac, force=force, groups=GROUPS[name],
                                express=express, kind=kind, dwell=dwell, rows=n,
                                cols=["tall", n, [40.0 if name == "mixed" else 700.0]],
                            )
                        for n in (1, 2):
                            yield dict(
                                part="image", phases=p, frac=frac, force=force, groups=GROUPS[name],
                                express=0, kind=kind, dwell=dwell, rows=n, cols=["all", [3.0, 1000.0, 1100.0, 1700.0], n],
                            )
    # many phases
    for p in range(5, 13) if deep else (5, 6, 7, 8):
        for frac in layouts(p, deep):
            for force in (True, False):
                for kind, express in (("image", 0), ("image", 1), ("ci", 0)):
                    yield dict(
                        part="image", phases=p, frac=frac, force=force, groups=GROUPS["mixed" if p % 2 else "slow"], express=express,
                        kind=kind, dwell=[round(0.4 + 0.3 * k, 3) for k in range(p)], rows=2, cols=["all", [0.0, 6.0, 700.0], 2],
                    )
    sizes = (1, 2, 3, 4) if deep else (1, 2, 3)
    for p in (2, 3, 4, 5, 6) if deep else (2, 3, 4):
        for frac in layouts(p, deep):
            for force in (True, False):
                for name in sorted(GROUPS):
                    for express in (0, 1, 2) if deep or p == 3 else (0, 1):
                        for kind in ("image", "ci"):
                            if kind == "ci" and not deep and (express == 1 or name == "slow"):
                                continue
                            dwells = [[round(0.4 + 0.3 * k, 3) for k in range(p)]]
                            if deep or name == "instant":
                                dwells.append([0.0 if k == 1 else 1.0 for k in range(p)])
                            for dwell in dwells:
                                for n in sizes:
                                    if n == 4 and (p > 4 or name == "slow"):
                                        continue
                                    yield dict(
                                        part="image", phases=p, frac=frac, force=force, groups=GROUPS[name],
                                        express=express, kind=kind, dwell=dwell, rows=n,
                                    )


def sequence(rec, p):
    runs = []
    for force in (True, False):
        runs.append((dict(kind="image", dwell=[1.0] * p, force=force), p, force))
        runs.append((dict(kind="ci", dwell=[1.0] * p, force=force), p, force))
    runs.append((dict(kind="pump", dwell=[1.0] * (2 * p), n=1), 2 * p, False))
    for spec, steps, force in runs:
        seq = world.roe(spec).clock_sequence
        want = readout.clock(p, steps, force)
        rec.evals += 1
        rec.seen("sequence", p, steps, force, spec["kind"])
        what = dict(roe=spec)
        if len(seq) != steps or any(len(s) != p for s in seq):
            rec.violation("the sequence is not %d steps of %d phases" % (steps, p), **what)
            continue
        for i, (phases, expected) in enumerate(zip(seq, want)):
            if sum(bool(x.is_high) for x in phases) != 1:
                rec.violation("step %d: not exactly one high phase" % i, **what)
            for k, (x, (high, capture, release)) in enumerate(zip(phases, expected)):
                rec.states += 1
                rec.transitions += 1
                at = "step %d phase %d: " % (i, k)
                to = [int(v) for v in np.array(x.release_to_which_pixels).flatten()]
                fr = [float(v) for v in np.array(x.release_fraction_to_pixel, dtype=float).flatten()]
                if bool(x.is_high) != high:
                    rec.violation(at + "high %s, should be %s" % (x.is_high, high), **what)
                if high and int(x.capture_from_which_pixel) != capture:
                    rec.violation(at + "captures from %s, should be %s" % (x.capture_from_which_pixel, capture), **what)
                if len(to) != len(fr) or abs(sum(fr) - 1) > 1e-12:
                    rec.violation(at + "releases fractions %s to %s" % (fr, to), **what)
                got = {}
                for d, f in zip(to, fr):
                    got[d] = got.get(d, 0.0) + f
                if {d: f for d, f in got.items() if f} != dict(release):
                    rec.violation(at + "releases %s, should be %s" % (got, dict(release)), **what)
                if force and (min(to) < 0 or int(x.capture_from_which_pixel) < 0):
                    rec.violation(at + "acts on a cloud nearer the readout", **what)


def run_case(case, rec):
    p = case["phases"]
    rec.sample(**case)
    if case["part"] == "sequence":
        sequence(rec, p)
        return
    ccd = {
        "frac": case["frac"], "full": [1000.0 + 100.0 * k for k in range(p)], "notch": 0.0,
        "power": [0.8 - 0.05 * k for k in range(p)],
    }
    roe = dict(kind=case["kind"], dwell=case["dwell"], force=case["force"])
    image = I.columns(case["cols"]) if "cols" in case else I.exhaustive(I.ALPHABET, case["rows"])
    I.against_model(rec, image, ccd, roe, case["groups"], physics="real", express=case["express"],
                    atol=1e-6 if case["rows"] > 10 else 1e-8)
