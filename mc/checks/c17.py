"""Continuum-lifetime traps against quadrature over their lifetimes."""
import itertools
import math

import numpy as np

from mc import histories as H, images as I, model, readout, world

LEVEL = "model_checking"
RULE = (
    "(a) Fill fraction, released fraction and round trip on a grid of times, medians and widths, against trapezoid "
    "quadrature in log lifetime. (b) All histories of passages over the real trap manager (state: everything it "
    "holds; transition: one passage), against a reference that keeps the time since filling on each piece of the volume. (c) All columns over the "
    "alphabet: add_cti with a continuum against add_cti with the equivalent many single-lifetime species. "
    "Distinct, non-trivial: states with trapped charge, and (column, output) pairs where traps acted."
)
BOUNDS = {
    "quick": "26 times x 12 medians x 9 widths (0.01-6), dwell times 0.01-100; all histories of 4 passages (3 for two species) over 8 (cloud, dwell) actions, "
    "abundant and scarce charge, 4 mixtures of species; columns of up to 3 pixels over 3 values",
    "thorough": "60 times x 12 medians x 14 widths; histories of 5 passages (4 for two species) over 10 actions; columns of up to 4 pixels",
}
ASSUMPTIONS = [
    "widths (sigma of log lifetime) of 0.01 and more: quadrature with default limits in the code is not meant for narrower ones"
]
MEDIANS = [0.02, 0.5, 1.0, 2e-5, 40.0, 1000.0, 0.003, 9.0, 25000.0, 3.7, 1e-6, 1e8]
SIGMAS = [0.01, 0.05, 0.2, 0.5, 1.0, 1.5, 2.0, 3.0, 6.0, 0.1, 0.03, 0.7, 0.3, 1.25]
GRID = np.linspace(-9.0, 9.0, 1801)
WEIGHT = np.exp(-0.5 * GRID ** 2)
WEIGHT /= WEIGHT.sum()


def filled(t, median, sigma):
    """Fraction still filled after t; sigma 0 for a single lifetime."""
    if t == 0:
        return 1.0
    if math.isinf(t):
        return 0.0
    if sigma == 0:
        return math.exp(-t / median)
    return float(np.dot(WEIGHT, np.exp(-t / (median * np.exp(sigma * GRID)))))


def elapsed(f, median, sigma):
    if f >= 1:
        return 0.0
    if f <= 0:
        return math.inf
    lo, hi = 0.0, median
    while filled(hi, median, sigma) > f:
        hi *= 2
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        if filled(mid, median, sigma) > f:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


class TimeGroup:
    """Species that share a profile of times since filling: pieces (upper edge, (time of each))."""

    def __init__(self, species):
        self.species = species  # [density, median, sigma]
        self.n = len(species)

    def held(self, profile):
        out, lo = 0.0, 0.0
        for hi, ts in profile:
            out += (hi - lo) * sum(d * filled(t, m, s) for (d, m, s), t in zip(self.species, ts))
            lo = hi
        return out

    def step(self, profile, n_free, dwell, fill):
        before = self.held(profile)
        aged = [(hi, tuple(t + dwell for t in ts)) for hi, ts in profile]
        n = n_free + before - self.held(aged)
        v = fill(n)
        if v <= 0:
            return before - self.held(aged), aged, "release"
        below, above = [], []
        lo = 0.0
        for hi, ts in aged:
            if hi <= v + model.MERGE:
                below.append((hi, ts))
            elif lo >= v - model.MERGE:
                above.append((hi, ts))
            else:
                below.append((v, ts))
                above.append((hi, ts))
            lo = hi
        if v > lo + model.MERGE:
            below.append((v, (math.inf,) * self.n))
        want, lo = 0.0, 0.0
        for hi, ts in below:
            want += (hi - lo) * sum(d * (1 - filled(t, m, s)) for (d, m, s), t in zip(self.species, ts))
            lo = hi
        if want <= n:
            new, what = [(v, (0.0,) * self.n)], "enough"
        else:
            e, what = n / want, "short"
            new = []
            for hi, ts in below:
                fs = [e + (1 - e) * filled(t, m, s) for (_, m, s), t in zip(self.species, ts)]
                new.append((hi, tuple(elapsed(f, m, s) for (_, m, s), f in zip(self.species, fs))))
        return before - self.held(new + above), new + above, what


HISTORIES = [
    [[8.0, 1.5, 0.5]],
    [[600.0, 1.5, 0.7]],
    [[400.0, 1.0, 0.2], [300.0, 6.0, 1.0]],
    [[500.0, 2.0, 0.0], [200.0, 0.6, 0.4]],
]
WELLS = {
    "notch": {"frac": [1.0], "full": 1000.0, "notch": 5.0, "power": 0.6},
    "plain": {"frac": [1.0], "full": 1000.0, "notch": 0.0, "power": 1.0},
}


def cases(tier):
    deep = tier == "thorough"
    medians, sigmas = (MEDIANS, SIGMAS) if deep else (MEDIANS, SIGMAS[:9])
    for m in medians:
        for s in sigmas:
            yield dict(part="curve", median=m, sigma=s, n=60 if deep else 26)
    clouds = [0.0, 6.0, 60.0, 400.0, 1200.0] if deep else [0.0, 60.0, 400.0, 1200.0]
    acts = [[n, d] for n in clouds for d in (0.4, 3.0)]
    for species in HISTORIES:
        for well in sorted(WELLS):
            for first in acts:
                yield dict(part="histories", species=species, well=well, first=first, actions=acts, depth=(5 if len(species) == 1 else 4) if deep else 4 if len(species) == 1 else 3)
    for median, sigma in [(2.0, 0.5), (0.4, 0.2), (10.0, 1.0), (1.0, 0.05)]:
        for first in (True, False):
            for kind in ("image", "ci"):
                for rows in (1, 2, 3, 4) if deep else (1, 2, 3):
                    if rows == 3 and (not first or kind == "ci") and not deep:
                        continue
                    for express in (0, 1):
                        yield dict(part="image", median=median, sigma=sigma, first=first, kind=kind, rows=rows, express=express)
    for median, sigma in [(2.0, 0.5), (10.0, 1.0)]:
        for phases in (2, 3):
            yield dict(part="image", median=median, sigma=sigma, first=True, kind="image", rows=2, express=0, phases=phases)


def curve(case, rec):
    m, s = case["median"], case["sigma"]
    trap = world.ac.TrapLogNormalLifetimeContinuum(density=3.0, release_timescale_mu=m, release_timescale_sigma=s)
    top = case["n"]
    far = 6.0 if s <= 2 else 12.0
    times = [0.0] + [m * 10.0 ** (-4.0 + far * i / (top - 1)) for i in range(top)]
    last, tol = 2.0, 3e-7
    for t in times:
        want = filled(t, m, s)
        got = float(trap.fill_fraction_from_time_elapsed(t))
        rec.evals += 1
        what = dict(median=m, sigma=s, time=t)
        if not (abs(got - want) <= tol and -tol <= got <= 1 + tol):
            rec.violation("filled fraction %.12g, the mean over lifetimes is %.12g" % (got, want), **what)
            return
        if got > last + 1e-9:
            rec.violation("filled fraction rises from %.15g to %.15g" % (last, got), **what)
            return
        last = got
        if 1e-6 < want < 1 - 1e-6:
            rec.seen(m, s, t)
        if 1e-5 < want < 1 - 1e-5 or t == 0:
            back = float(trap.time_elapsed_from_fill_fraction(got))
            again = filled(back, m, s)
            if not abs(again - want) <= 3e-6:
                rec.violation("fraction %.12g is reached at %.12g, not %.12g" % (got, t, back), **what)
                return
            slope = abs(filled(t * 1.01, m, s) - want) / 0.01 if t else 1
            if t and slope > 1e-2 and not abs(back - t) <= 1e-3 * t or t == 0 and back > 1e-6 * m:
                rec.violation("time %.12g becomes %.12g" % (t, back), **what)
                return
        for dwell in (0.01 * m, m, 100.0 * m, 1.0):
            rec.evals += 1
            freed = float(trap.electrons_released_from_time_elapsed_and_dwell_time(t, dwell))
            drop = want - filled(t + dwell, m, s)
            if not abs(freed - drop) <= tol:
                rec.violation("released %.12g, should be %.12g" % (freed, drop), dwell=dwell, **what)
                return
            of = float(trap.electrons_released_from_electrons_and_dwell_time(7.0, dwell))
            if not abs(of - 7.0 * (1 - filled(dwell, m, s))) <= 7 * tol:
                rec.violation("released from 7 electrons: %.12g" % of, dwell=dwell, **what)
                return
    for f in (1.0, 0.999, 0.9, 0.5, 0.1, 0.01):
        t = float(trap.time_elapsed_from_fill_fraction(f))
        rec.evals += 1
        if not (t >= 0 and abs(filled(t, m, s) - f) <= 3e-6):
            rec.violation("fraction %g is not reached at %.12g" % (f, t), median=m, sigma=s)
    # of a single lifetime
    plain = world.ac.TrapInstantCapture(density=3.0, release_timescale=m)
    for t in times:
        f = float(plain.fill_fraction_from_time_elapsed(t))
        ok = abs(f - math.exp(-t / m)) <= 1e-12
        if f > 1e-12:
            ok = ok and abs(float(plain.time_elapsed_from_fill_fraction(f)) - t) <= 1e-4 * t + 1e-9 * m
        for dwell in (0.01 * m, m, 100 * m):
            x = float(plain.electrons_released_from_time_elapsed_and_dwell_time(t, dwell))
            ok = ok and abs(x - (math.exp(-t / m) - math.exp(-(t + dwell) / m))) <= 1e-12
        if not ok:
            rec.violation("a single lifetime", lifetime=m, time=t)


def manager(species):
    ac = world.ac
    return ac.trap_managers.TrapManagerTrackTime(
        traps=[
            ac.TrapLogNormalLifetimeContinuum(density=d, release_timescale_mu=m, release_timescale_sigma=s)
            if s else ac.TrapInstantCapture(density=d, release_timescale=m)
            for d, m, s in species
        ],
        max_n_transfers=8,
    )


def histories(case, rec):
    group = TimeGroup([tuple(x) for x in case["species"]])
    spec = WELLS[case["well"]]
    fill = H.well(spec)
    cap = sum(x[0] for x in case["species"])

    def refill(n):
        return model.filling(n, spec["full"], spec["notch"], spec["power"])

    def step(objs, a, hist):
        m, holder = objs
        want, holder[0], what = group.step(holder[0], a[0], a[1], refill)
        net = float(m.n_electrons_released_and_captured(
            n_free_electrons=a[0], ccd_filling_function=fill, dwell_time=a[1]))
        rec.evals += 1
        rec.label(what)
        held = H.trapped(m)
        tol = 2e-5 * max(1.0, cap)
        if held > 0:
            rec.seen(repr(case["species"]), case["well"], H.freeze(m.watermarks))
        if not (abs(net - want) <= tol and abs(held - group.held(holder[0])) <= tol):
            rec.violation(
                "released %.10g and holds %.10g, should be %.10g and %.10g" % (net, held, want, group.held(holder[0])),
                history=hist, species=case["species"], well=spec,
            )
            return False
        return True

    root = [manager(case["species"]), [[]]]
    a = case["first"]
    rec.transitions += 1
    if step(root, a, (a,)):
        H.explore_from(root, (a,), case["actions"], case["depth"] - 1, step, rec)


def image_case(case, rec):
    m, s = case["median"], case["sigma"]
    phases = case.get("phases", 1)
    # few traps in a linear well: charge always suffices to fill those it reaches
    density = 3.0
    n = 61
    grid = np.linspace(-6.0, 6.0, n)
    w = np.exp(-0.5 * grid ** 2)
    w /= w.sum()
    many = [["instant", density * float(wi), m * math.exp(s * float(x))] for wi, x in zip(w, grid)]
    ccd = {"frac": [1.0 / phases] * phases, "full": 1000.0, "notch": 0.0, "power": 1.0}
    roe = dict(kind=case["kind"], dwell=[1.0 / (1 + k) for k in range(phases)], first=case["first"])
    image = world.all_columns([0.0, 40.0, 700.0], case["rows"])
    a = np.asarray(world.ac.add_cti(image.copy(), **I.direction(ccd, roe, [[["cont", density, m, s]]], express=case["express"])))
    b = np.asarray(world.ac.add_cti(image.copy(), **I.direction(ccd, roe, [many], express=case["express"])))
    rec.evals += 2 * image.shape[1]
    for c in range(image.shape[1]):
        if np.any(a[:, c] != image[:, c]):
            rec.seen_arrays(image[:, c], a[:, c])
    if not world.close(a, b, rtol=1e-7, atol=5e-6):
        rec.violation("continuum against %d lifetimes: %s" % (n, world.worst(a, b)), case=case)


def run_case(case, rec):
    rec.sample(**case)
    {"curve": curve, "histories": histories, "image": image_case}[case["part"]](case, rec)
