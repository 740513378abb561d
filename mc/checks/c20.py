"""Random trap densities: every seed in a range, every list of species and shape in the bounds."""
import copy
import itertools
import math

import numpy as np

from mc import world

LEVEL = "exploration"
RULE = (
    "Every (species list, shape, seed) in the bounds: number, order, kind and other properties of the species drawn, whole "
    "numbers of traps per column, same seed same draw (again, and after other draws), originals untouched. Over the whole "
    "range of seeds the counts must have the Poisson mean, variance and frequencies within 6 standard errors, and be "
    "uncorrelated between columns and species, and in wide images between columns any distance apart. Distinct, non-trivial: (species, shape, seed, draw) with some traps."
)
BOUNDS = {
    "quick": "12 lists of 1-4 species of all kinds; 7 shapes from 1x1 to 1000x3; seeds 0-60 each; distribution over seeds 0-3999 for 8 (density, shape); 300, 1100 and 4200 columns, every distance between columns, seeds 0-9",
    "thorough": "seeds 0-600 each; distribution over seeds 0-39999; wide images seeds 0-99",
}
LISTS = [
    [["slow", 1.0, 2.0, 0.0]],
    [["slow", 10.0, 2.0, 0.5]],
    [["instant", 3.0, 1.5]],
    [["cont", 2.0, 1.5, 0.4]],
    [["slow", 1.0, 2.0, 0.0], ["slow", 2.0, 3.0, 0.1]],
    [["slow", 5.0, 2.0, 0.3], ["instant", 0.0, 3.0]],
    [["instant", 0.01, 2.0], ["instant", 100.0, 3.0], ["instant", 0.5, 9.0]],
    [["cont", 3.0, 1.5, 0.4], ["instant", 4.0, 2.5], ["slow", 5.0, 3.5, 0.2]],
    [["slow", 2.0, 1.0, 0.5], ["slow", 2.0, 1.0, 0.5], ["slow", 2.0, 1.0, 0.5], ["slow", 2.0, 1.0, 0.5]],
    [["instant", 0.0, 1.0]],
    [["surface", 2.0, 1.0, 0.3]],
    [["slow", 1e4, 2.0, 0.3]],
]
SHAPES = [(1, 1), (1, 4), (2, 3), (7, 2), (10, 1), (33, 5), (1000, 3)]


def cases(tier):
    deep = tier == "thorough"
    for i in range(len(LISTS)):
        for shape in SHAPES:
            yield dict(part="draws", list=i, shape=shape, seeds=600 if deep else 60)
    for density, shape in [(0.3, (1, 2)), (1.0, (1, 2)), (2.5, (2, 2)), (0.1, (50, 3)), (1.7, (100, 2)), (20.0, (3, 2)), (0.004, (100, 2)), (0.7, (3, 3))]:
        yield dict(part="distribution", density=density, shape=shape, seeds=40000 if deep else 4000)
    for cols, rows, density in [(300, 4, 3.0), (1100, 2, 0.9), (4200, 1, 2.0)]:
        yield dict(part="wide", density=density, shape=(rows, cols), seeds=100 if deep else 10)


def make(s):
    if s[0] == "surface":
        return world.ac.Trap(density=s[1], release_timescale=s[2], capture_timescale=s[3], surface=True)
    return world.species(s)


def others(trap):
    return {k: (v if not callable(v) else getattr(v, "__qualname__", "f")) for k, v in vars(trap).items() if k != "density"}


def run_case(case, rec):
    ac = world.ac
    shape = tuple(case["shape"])
    rows, cols = shape
    if case["part"] == "distribution":
        distribution(case, rec, rows, cols)
        return
    if case["part"] == "wide":
        wide(case, rec, rows, cols)
        return
    specs = LISTS[case["list"]]
    for seed in range(case["seeds"]):
        originals = [make(s) for s in specs]
        before = [(others(t), t.density) for t in originals]
        how = (ac.Trap, type(originals[0]))[seed % 2]
        draw = how.poisson_trap(trap=originals, shape=shape, seed=seed)
        what = dict(species=specs, shape=shape, seed=seed, drawn=[t.density for t in draw][:12])
        rec.evals += 1
        if len(draw) != cols * len(specs):
            rec.violation("%d species were drawn" % len(draw), **what)
            return
        for i, t in enumerate(draw):
            o = originals[i % len(specs)]
            count = t.density * rows
            if type(t) is not type(o) or others(t) != others(o):
                rec.violation("species %d is not that of the original" % i, got=str(others(t)), want=str(others(o)), **what)
                return
            if t is o or not (count >= 0 and abs(count - round(count)) < 1e-6):
                rec.violation("species %d has %.9g traps in its column" % (i, count), **what)
                return
            if o.density == 0 and t.density != 0:
                rec.violation("traps of a species that has none", **what)
                return
            mean = o.density * rows
            if abs(count - mean) > 9 * math.sqrt(mean) + 25:
                rec.violation("species %d has %g traps, mean %g" % (i, count, mean), **what)
                return
            if type(o) is not ac.TrapLogNormalLifetimeContinuum:
                same = t.fill_fraction_from_time_elapsed(0.7) == o.fill_fraction_from_time_elapsed(0.7)
            else:
                same = seed or t.fill_fraction_from_time_elapsed(0.7) == o.fill_fraction_from_time_elapsed(0.7)
            if not same:
                rec.violation("species %d releases differently" % i, **what)
                return
        if [(others(t), t.density) for t in originals] != before:
            rec.violation("the originals were altered", **what)
            return
        densities = [t.density for t in draw]
        if any(densities):
            rec.seen(case["list"], shape, seed, densities)
        # again: at once, after another draw, and in the middle of other random numbers
        for trial in range(3):
            if trial == 1:
                ac.Trap.poisson_trap(trap=originals[::-1], shape=(4, 2), seed=seed + 1)
            if trial == 2:
                np.random.seed(5)
                np.random.random(7)
            again = [t.density for t in how.poisson_trap(trap=[make(s) for s in specs], shape=shape, seed=seed)]
            rec.evals += 1
            if again != densities:
                rec.violation("the same seed drew differently", again=again[:12], **what)
                return
        # independent of one another: changing a draw leaves the others alone
        if draw:
            draw[0].density = -1.0
            if any(t.density < 0 for t in draw[1:]) or originals[0].density < 0:
                rec.violation("species drawn share their density", **what)
    rec.sample(species=specs, shape=shape, drawn=densities[:8])


def distribution(case, rec, rows, cols):
    density, n = case["density"], case["seeds"]
    both = []
    for seed in range(n):
        draw = world.ac.Trap.poisson_trap(
            trap=[world.ac.Trap(density=density, release_timescale=1.0), world.ac.TrapInstantCapture(density=density, release_timescale=2.0)],
            shape=(rows, cols), seed=seed,
        )
        rec.evals += 1
        both.append([round(t.density * rows) for t in draw])
    x = np.array(both, dtype=float)
    mean = density * rows
    rec.seen("distribution", density, rows, cols)
    what = dict(density=density, rows=rows, columns=cols, seeds=n)
    spread = math.sqrt(mean / n)
    m = x.mean(axis=0)
    if not np.all(np.abs(m - mean) <= 6 * spread):
        rec.violation("mean number of traps %s, should be %g" % (m.tolist(), mean), **what)
    v = x.var(axis=0)
    if not np.all(np.abs(v - mean) <= 6 * math.sqrt((2 * mean ** 2 + mean) / n)):
        rec.violation("variance of the number of traps %s, should be %g" % (v.tolist(), mean), **what)
    for k in range(int(mean + 4 * math.sqrt(mean)) + 1):
        p = math.exp(-mean + k * math.log(mean) - math.lgamma(k + 1))
        got = (x == k).mean(axis=0)
        if not np.all(np.abs(got - p) <= 6 * math.sqrt(p * (1 - p) / n) + 3.0 / n):
            rec.violation("%d traps in %s of the draws, should be %g" % (k, got.tolist(), p), **what)
            break
    for i, j in itertools.combinations(range(x.shape[1]), 2):
        c = np.corrcoef(x[:, i], x[:, j])[0, 1]
        if not abs(c) <= 6 / math.sqrt(n):
            rec.violation("draws %d and %d are correlated: %g" % (i, j, c), **what)
            break
    rec.sample(density=density, rows=rows, mean=m.tolist(), variance=v.tolist())


def wide(case, rec, rows, cols):
    """The draws of columns any distance apart, and of the two species, must not repeat one another."""
    density, n = case["density"], case["seeds"]
    x = []
    for seed in range(n):
        draw = world.ac.Trap.poisson_trap(
            trap=[world.ac.Trap(density=density, release_timescale=1.0), world.ac.TrapInstantCapture(density=density, release_timescale=2.0)],
            shape=(rows, cols), seed=seed,
        )
        rec.evals += 1
        if len(draw) != 2 * cols:
            rec.violation("%d species were drawn" % len(draw), rows=rows, columns=cols, seed=seed)
            return
        x.append([t.density * rows for t in draw])
    mean = density * rows
    z = (np.array(x) - mean) / math.sqrt(mean)
    length = z.shape[1]
    for lag in range(1, length):
        pairs = n * (length - lag)
        if pairs < 1000:
            break
        c = float((z[:, :-lag] * z[:, lag:]).sum()) / math.sqrt(pairs)
        rec.evals += 1
        rec.seen("wide", cols, lag)
        if not abs(c) <= 8:
            rec.violation("species drawn %d apart are correlated, by %.3g standard errors" % (lag, c), rows=rows, columns=cols, density=density, seeds=n)
            return
    rec.sample(density=density, rows=rows, columns=cols, seeds=n, lags=lag)
