"""Frames against plain arrays."""
import itertools
import os

import numpy as np

from mc import build, images as I, world

LEVEL = "exploration"
RULE = (
    "Every image, mask, readout corner, frame class and combination of options in the bounds: the Frame that comes back must "
    "hold the values of the same call on the plain array (zero where masked; for removal, masked in each iteration), with the "
    "class, mask, corner, scans and exposure of the Frame given, which must not change nor share memory with it. "
    "Distinct, non-trivial: (image, mask, options, output) with output different from the input."
)
BOUNDS = {
    "quick": "shapes 1x1 to 3x4; all masks of up to 2 pixels (1 for 3x4) and full rows; 4 corners; Frame, FrameACS and a subclass; 13 "
    "combinations of options; add and remove with 0-3 iterations; 6 masks of images of 70 to 300 rows or columns with 3 options",
    "thorough": "the same with all masks of images up to 3x3 (512) and shapes up to 5x6, and 1100 rows or columns",
}
CORNERS = [(0, 0), (0, 1), (1, 0), (1, 1)]
OPTIONS = [
    "nothing", "parallel", "serial", "both", "slow", "express", "offset", "window", "time", "injection", "pumping", "three phases", "int",
]
_made = {}


def cases(tier):
    deep = tier == "thorough"
    shapes = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 4)] + ([(3, 3), (5, 6), (4, 2)] if deep else [])
    for shape in shapes:
        for cls in ("Frame", "FrameACS", "Sub"):
            for corner in CORNERS:
                for option in OPTIONS:
                    yield dict(shape=shape, cls=cls, corner=corner, option=option, deep=deep)
    for k, shape in enumerate([(70, 2), (2, 70), (300, 1), (1, 300)] + ([(1100, 1), (1, 1100)] if deep else [])):
        for i, option in enumerate(("quick parallel", "quick serial", "express")):
            cls = ("Frame", "FrameACS", "Sub")[(i + k) % 3]
            yield dict(shape=shape, cls=cls, corner=CORNERS[(i + k) % 4], option=option, deep=deep)


def classes():
    if not _made:
        from autoconf import conf

        conf.instance = conf.Config(config_path=os.path.join(build.REPO, "test_arcticpy", "config"))
        from autoarray.mask import mask as msk
        from autoarray.structures import frames

        class Sub(frames.Frame):
            pass

        _made.update(Frame=frames.Frame, FrameACS=world.ac.acs.FrameACS, Sub=Sub, mask=msk.Mask, frames=frames)
    return _made


def options(name, shape):
    rows, cols = shape
    instant, slow = [[["instant", 30.0, 2.0]]], [[["slow", 30.0, 2.0, 0.3], ["slow", 8.0, 9.0, 0.1]]]
    plain = I.CCDS["plain"]
    image = dict(kind="image", dwell=[1.0])
    if name == "nothing":
        return {}
    if name == "quick parallel":
        return I.direction(plain, image, slow, express=1)
    if name == "quick serial":
        return I.direction(plain, image, instant, prefix="serial", express=1)
    if name == "parallel" or name == "int":
        return I.direction(plain, image, instant)
    if name == "serial":
        return I.direction(plain, image, instant, prefix="serial")
    if name == "both":
        return dict(I.direction(plain, image, slow), **I.direction(plain, image, instant, prefix="serial"))
    if name == "slow":
        return I.direction(plain, dict(image, first=False), slow)
    if name == "express":
        return dict(I.direction(plain, image, instant, express=1), **I.direction(plain, image, instant, prefix="serial", express=2))
    if name == "offset":
        return I.direction(plain, image, instant, offset=2)
    if name == "window":
        return dict(I.direction(plain, image, instant, window_range=range(0, max(1, rows - 1))), serial_window_range=range(cols // 2, cols))
    if name == "time":
        return dict(I.direction(plain, image, instant), time_window_range=range(0, max(1, rows - 1)))
    if name == "injection":
        return I.direction(plain, dict(kind="ci", dwell=[1.0], n=rows), instant)
    if name == "pumping":
        return I.direction(
            {"frac": [0.4, 0.6], "full": 1000.0, "notch": 0.0, "power": 0.8},
            dict(kind="pump", dwell=[0.5] * 4, n=2), instant, window_range=rows // 2,
        )
    return I.direction(
        {"frac": [0.5, 0.2, 0.3], "full": 1000.0, "notch": 0.0, "power": 0.7},
        dict(kind="image", dwell=[0.5, 0.8, 1.0], force=False), instant,
    )


def masks(shape, deep):
    rows, cols = shape
    n = rows * cols
    if n > 100:
        for chosen in ([], [0], [n // 2], [n - 1], range(0, n, 3), range(n)):
            m = np.zeros(n, dtype=bool)
            m[list(chosen)] = True
            yield m.reshape(shape)
        return
    cells = list(itertools.product(range(rows), range(cols)))
    if deep and n <= 9:
        for bits in itertools.product((False, True), repeat=n):
            yield np.array(bits).reshape(shape)
        return
    for k in (0, 1, 2) if deep or n <= 6 else (0, 1):
        for chosen in itertools.combinations(cells, k):
            m = np.zeros(shape, dtype=bool)
            for c in chosen:
                m[c] = True
            yield m
    if n > 1:
        for r in range(rows):
            m = np.zeros(shape, dtype=bool)
            m[r] = True
            yield m


def run_case(case, rec):
    made = classes()
    shape = tuple(case["shape"])
    rows, cols = shape
    kw = options(case["option"], shape)
    base = np.array([[(0.0, 700.0, 35.0, 6.0, 250.0)[(3 * r + 2 * c + r * c) % 5] for c in range(cols)] for r in range(rows)])
    if case["option"] == "int":
        base = base.astype(int)
    all_masks = list(masks(shape, case["deep"]))
    scans = made["frames"].abstract_frame.Scans(parallel_overscan=(0, 1, 0, 1)) if hasattr(made["frames"], "abstract_frame") else None
    for n_mask, m in enumerate(all_masks):
        info = {"exposure": n_mask}
        mask = made["mask"].manual(m.copy()) if n_mask % 2 else m.copy()
        frame = made[case["cls"]](
            array=base.copy(), mask=mask, original_roe_corner=tuple(case["corner"]), scans=scans, exposure_info=info,
        )
        plain = np.where(m, 0, base)
        held = np.array(frame)
        if not np.array_equal(held, plain):
            raise AssertionError("the harness misunderstands Frames")
        few = n_mask < 3 or n_mask == len(all_masks) - 1
        jobs = ["add"] + ([0, 1, 2, 3] if few else [2])
        for job in jobs:
            what = dict(case=case, mask=m.tolist(), job=job)
            if job == "add":
                got = world.ac.add_cti(frame, **kw)
                want = np.where(m, 0.0, world.ac.add_cti(plain.copy(), **kw))
            else:
                got = world.ac.remove_cti(frame, iterations=job, **kw)
                want = plain.astype(float)
                for _ in range(job):
                    want = want + (plain - np.where(m, 0.0, world.ac.add_cti(want.copy(), **kw)))
                if not m.any():
                    other = np.asarray(world.ac.remove_cti(plain.copy(), iterations=job, **kw))
                    if not world.close(np.array(got), other):
                        rec.violation("removal, Frame against array: " + world.worst(np.array(got), other), **what)
                        return
            rec.evals += 1
            if type(got) is not made[case["cls"]]:
                rec.violation("returned %s" % type(got).__name__, **what)
                return
            values = np.array(got)
            if not world.close(values, want):
                rec.violation("values, Frame against array: " + world.worst(values, want), **what)
                return
            if np.any(values != plain):
                rec.seen_arrays(values, m, case["option"], case["cls"], case["corner"])
            if np.any(values[m] != 0):
                rec.violation("a masked pixel is not zero", **what)
            carried = {
                "mask": np.array_equal(np.array(got.mask), m) and type(got.mask) is type(frame.mask),
                "readout corner": got.original_roe_corner == tuple(case["corner"]),
                "scans": got.scans is frame.scans or vars(got.scans) == vars(frame.scans),
                "exposure": got.exposure_info == info,
            }
            for k, ok in carried.items():
                if not ok:
                    rec.violation("the %s was not carried over" % k, **what)
                    return
            kept = (
                np.array_equal(np.array(frame), held) and frame.dtype == held.dtype and np.array_equal(np.array(frame.mask), m)
                and frame.exposure_info is info and frame.original_roe_corner == tuple(case["corner"])
                and info == {"exposure": n_mask}
            )
            if not kept:
                rec.violation("the Frame given was altered", **what)
                return
            if np.shares_memory(got, frame):
                rec.violation("the result shares memory with the Frame given", **what)
                return
    rec.sample(shape=shape, cls=case["cls"], corner=case["corner"], option=case["option"], image=base.tolist())
