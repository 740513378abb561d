"""Copies of the settings, and images however they are stored."""
import copy
import itertools
import os
import pickle
import tempfile

import numpy as np

from mc import images as I, world

LEVEL = "model_checking"
RULE = (
    "State: the settings in hand (CCD, readout electronics, traps) after a history of deep and shallow copying, pickling, use, "
    "changes made to another copy, or to the original, of them, and to the lists that their values were given as. Transition: one of those. After every history the call must give what it gives with "
    "newly built settings, and so must every older copy at the end. And every way of storing an image (type of number, byte order, memory order, strides, "
    "read-only, memory-mapped) must give, for every call in the menu, the result for the same numbers in an ordinary "
    "array, and be left as it was. Distinct: (settings, history) or (storage, call, output)."
)
BOUNDS = {
    "quick": "all histories of 3 over 13 steps, 6 sets of settings; 18 ways of storage x 11 calls x 7 images",
    "thorough": "all histories of 4 over 13 steps; the same with 15 images",
}
SETS = [
    dict(roe=dict(kind="image", dwell=[1.0]), ccd=I.CCDS["notch"], traps=I.TRAPS["mixed"]),
    dict(roe=dict(kind="image", dwell=[0.5, 0.7], first=False, between=False, dtype="int"),
         ccd={"frac": [0.4, 0.6], "full": 1000.0, "notch": 2.0, "power": 0.7}, traps=I.TRAPS["dense-slow"]),
    dict(roe=dict(kind="ci", dwell=[1.0], n=5), ccd=I.CCDS["plain"], traps=I.TRAPS["instants"]),
    dict(roe=dict(kind="pump", dwell=[0.5] * 4, n=3), ccd={"frac": [0.0, 1.0], "full": 1000.0, "notch": 0.0, "power": 0.8},
         traps=I.TRAPS["dense"]),
    dict(roe=dict(kind="image", dwell=[0.5, 0.8, 1.0], force=False),
         ccd={"frac": [0.5, 0.2, 0.3], "full": [1000.0, 900.0, 800.0], "notch": 0.0, "power": 0.7}, traps=I.TRAPS["slows"]),
    dict(roe=dict(kind="image", dwell=[1.0]), ccd=I.CCDS["plain"], traps=[[["cont", 20.0, 2.0, 0.5]]]),
]
STEPS = ["deepcopy", "copy", "pickle", "add", "remove", "change a deep copy", "change a shallow copy", "change a pickled copy",
         "copy and change the original", "deepcopy and change the original", "pickle and change the original",
         "set from lists and alter these", "build from lists and alter these"]
PICTURE = np.array([[0.0, 6.0], [700.0, 0.0], [0.0, 1200.0]])


def image_sets(tier):
    base = [
        [[0, 6, 40], [700, 0, 0], [0, 0, 5], [40, 1200, 0], [0, 0, 90]],
        [[700, 3], [0, 200]],
        [[900], [0], [7]],
        [[5, 800, 0, 31]],
        [[0, 30011], [4099, 0], [0, 2051]],
        [[60001, 0, 9], [0, 257, 0]],
        [[123456789, 0], [33333, 0]],
    ]
    if tier == "thorough":
        base += [[list(v[:2]), list(v[2:])] for v in itertools.product([0, 90, 800], repeat=4)][5::10]
    return [np.array(b, dtype=float) for b in base]


STORED = [
    "float64", "float32", "float16", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "big-endian float", "big-endian short",
    "fortran", "strided", "reversed", "transposed", "read-only", "memory-mapped",
]
CALLS = ["parallel", "slow", "serial", "both", "injection", "pumping", "express", "windows", "offset", "remove", "nothing"]


def cases(tier):
    depth = 4 if tier == "thorough" else 3
    for i in range(len(SETS)):
        d = depth - 1 if i == 5 else depth
        for first in STEPS:
            for second in STEPS if d > 3 else (None,):
                yield dict(part="copies", set=i, first=first, second=second, depth=d)
    for how in STORED:
        for call in CALLS:
            yield dict(part="storage", how=how, call=call, tier=tier)


def settings(spec):
    return [world.ccd(spec["ccd"]), world.roe(spec["roe"]), world.traps(spec["traps"])]


def use(spec, s, iterations=None):
    kw = dict(parallel_ccd=s[0], parallel_roe=s[1], parallel_traps=s[2], parallel_express=1)
    if spec["roe"]["kind"] == "pump":
        kw["parallel_window_range"] = 1
    if iterations:
        return np.array(world.ac.remove_cti(PICTURE.copy(), iterations, **kw))
    return np.array(world.ac.add_cti(PICTURE.copy(), **kw))


def change(spec, s):
    """Other values for everything that has a setter."""
    ccd, roe, traps = s
    n = len(spec["ccd"]["frac"])
    ccd.full_well_depth = [500.0] * n
    ccd.well_notch_depth = 50.0
    ccd.well_fill_power = [0.3] * n
    ccd.fraction_of_traps_per_phase = [1.0 / n] * n
    roe.dwell_times = [7.0] * len(spec["roe"]["dwell"])
    if hasattr(roe, "n_pixel_transfers"):
        roe.n_pixel_transfers = 2
    if hasattr(roe, "n_pumps"):
        roe.n_pumps = 1
    roe.empty_traps_for_first_transfers = not roe.empty_traps_for_first_transfers
    for group in traps:
        for t in group:
            t.density = 3.0


def shallow(s):
    return [copy.copy(s[0]), copy.copy(s[1]), [[copy.copy(t) for t in g] for g in s[2]]]


def lists(spec):
    n = len(spec["ccd"]["frac"])
    c = {k: list(v) if isinstance(v, list) else [v] * n for k, v in spec["ccd"].items()}
    return dict(c, dwell=list(spec["roe"]["dwell"]))


def alter(given):
    for v in given.values():
        for i in range(len(v)):
            v[i] = 0.1 + 0.2 * i
        v.append(4.0)


def apply(step, spec, s):
    if step.endswith("these"):
        given = lists(spec)
        if step.startswith("build"):
            s = [
                world.ac.CCD(
                    fraction_of_traps_per_phase=given["frac"], full_well_depth=given["full"],
                    well_notch_depth=given["notch"], well_fill_power=given["power"],
                ),
                world.roe(spec["roe"], dwell_times=given["dwell"]),
                world.traps(spec["traps"]),
            ]
        else:
            s[0].full_well_depth = given["full"]
            s[0].well_notch_depth = given["notch"]
            s[0].well_fill_power = given["power"]
            s[0].fraction_of_traps_per_phase = given["frac"]
            s[1].dwell_times = given["dwell"]
        alter(given)
        return s
    if step == "deepcopy":
        return copy.deepcopy(s)
    if step == "copy":
        return shallow(s)
    if step == "pickle":
        return pickle.loads(pickle.dumps(s))
    if step.endswith("original"):
        other = {"copy": shallow, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[step.split()[0]](s)
        change(spec, s)
        use(spec, s)
        return other
    if step == "add":
        use(spec, s)
    elif step == "remove":
        use(spec, s, 1)
    else:
        other = {"deep": copy.deepcopy, "shallow": shallow, "pickled": lambda x: pickle.loads(pickle.dumps(x))}[step.split()[2]](s)
        change(spec, other)
        use(spec, other)
    return s


def copies(case, rec):
    spec = SETS[case["set"]]
    want = use(spec, settings(spec))
    start = [case["first"]] + ([case["second"]] if case["second"] else [])
    for rest in itertools.product(STEPS, repeat=case["depth"] - len(start)):
        history = start + list(rest)
        s = settings(spec)
        older = [s]
        for step in history:
            s = apply(step, spec, s)
            if step.endswith("original"):
                older[-1:] = [s]
            elif s is not older[-1]:
                older.append(s)
            rec.transitions += 1
        rec.states += len(older)
        rec.traces += 1
        for k, old in enumerate(older):
            got = use(spec, old)
            rec.evals += 1
            if not world.close(got, want, rtol=1e-12, atol=1e-11):
                rec.violation(
                    "after %s, %s: %s" % (", ".join(history), "the latest copy" if old is s else "copy %d" % k, world.worst(got, want)),
                    settings=spec, got=got.tolist(), want=want.tolist(),
                )
                return
        rec.seen(case["set"], history)
    rec.label("copies")


def store(image, how):
    """The image stored in a certain way, or None if it would not hold the numbers."""
    special = {
        "big-endian float": lambda: image.astype(">f8"), "big-endian short": lambda: image.astype(">i2"), "fortran": lambda: np.asfortranarray(image),
        "strided": lambda: np.repeat(np.repeat(image, 2, axis=0), 3, axis=1)[::2, ::3],
        "reversed": lambda: image[::-1, ::-1].copy()[::-1, ::-1], "transposed": lambda: image.T.copy().T,
    }
    if how in special:
        out = special[how]()
    elif how == "read-only":
        out = image.copy()
        out.setflags(write=False)
    elif how == "memory-mapped":
        f, path = tempfile.mkstemp(prefix="c30-")
        os.close(f)
        image.tofile(path)
        out = np.memmap(path, dtype=float, mode="r", shape=image.shape)
        os.unlink(path)
    else:
        out = image.astype(how)
    return out if np.array_equal(np.array(out, dtype=float), image) else None


def call(name, image):
    ac = world.ac
    picture = dict(kind="image", dwell=[1.0])
    P = I.direction(I.CCDS["plain"], picture, I.TRAPS["instants"])
    S = I.direction(I.CCDS["notch"], dict(kind="image", dwell=[0.5]), I.TRAPS["mixed"], prefix="serial")
    rows, cols = image.shape
    if name == "parallel":
        return ac.add_cti(image, **P)
    if name == "slow":
        return ac.add_cti(image, **I.direction(I.CCDS["notch"], picture, I.TRAPS["dense-slow"]))
    if name == "serial":
        return ac.add_cti(image, **S)
    if name == "both":
        return ac.add_cti(image, **P, **S)
    if name == "injection":
        return ac.add_cti(image, **I.direction(I.CCDS["plain"], dict(kind="ci", dwell=[1.0]), I.TRAPS["slows"]))
    if name == "pumping":
        k = I.direction({"frac": [0.0, 1.0], "full": 1000.0, "notch": 0.0, "power": 0.8}, dict(kind="pump", dwell=[0.5] * 4, n=3), I.TRAPS["dense"])
        return ac.add_cti(image, parallel_window_range=rows - 1, **k)
    if name == "express":
        return ac.add_cti(image, parallel_express=1, serial_express=2, **P, **S)
    if name == "windows":
        return ac.add_cti(image, parallel_window_range=range(0, 1), serial_window_range=range(cols - 1, cols), time_window_range=range(0, rows), **P)
    if name == "offset":
        return ac.add_cti(image, parallel_offset=3, **P)
    if name == "remove":
        return ac.remove_cti(image, 2, **P)
    return ac.add_cti(image)


def storage(case, rec):
    for image in image_sets(case["tier"]):
        given = store(image, case["how"])
        if given is None:
            small = np.minimum(image, 100.0)
            given = store(small, case["how"])
            image = small
            if given is None:
                continue
        before = (given.dtype.str, given.strides, given.flags.writeable, given.tobytes())
        want = np.array(call(case["call"], image.copy()), dtype=float)
        got = call(case["call"], given)
        rec.evals += 2
        what = dict(stored=case["how"], call=case["call"], image=image.tolist())
        if not world.close(got, want, rtol=1e-12, atol=1e-11):
            rec.violation("stored as %s: %s" % (case["how"], world.worst(got, want)), got=np.array(got).tolist(), want=want.tolist(), **what)
            return
        if (given.dtype.str, given.strides, given.flags.writeable, given.tobytes()) != before:
            rec.violation("the image given was changed", **what)
            return
        if np.shares_memory(np.asarray(got), given):
            rec.violation("the result shares memory with the image", **what)
            return
        if np.any(want != image):
            rec.seen_arrays(case["how"] + case["call"], image, want)
    rec.label(case["how"])


def run_case(case, rec):
    rec.sample(**case)
    (copies if case["part"] == "copies" else storage)(case, rec)
