"""Objects whose settings are changed against objects built with those settings."""
from copy import deepcopy

import numpy as np

from mc import histories as H, images as I, world

LEVEL = "model_checking"
RULE = (
    "State: one readout, CCD and list of traps, and the settings they stand for. Transition: one assignment to "
    "a setting of one of the real objects, followed by adding CTI to all columns over the alphabet with them; the result "
    "must be that of objects newly built with the settings. All sequences of assignments up to the depth are executed; "
    "identical states (bit for bit, including anything the objects remember) are merged."
)
BOUNDS = {
    "quick": "sequences of up to 3 of 14-17 assignments, imaging, injection and pumping, one mixture of traps; columns of 3 pixels over 2 values, with express 0 and 2",
    "thorough": "sequences of up to 4; 4 mixtures of traps; express 0, 1 and 2",
}
WELL = {1: dict(full=[900.0], notch=[2.0], power=[0.6]),
        2: dict(full=[900.0, 1000.0], notch=[2.0, 0.0], power=[0.6, 0.8]),
        3: dict(full=[900.0, 1000.0, 800.0], notch=[2.0, 0.0, 5.0], power=[0.6, 0.8, 0.5])}
FRAC = {1: [1.0], 2: [0.4, 0.6], 3: [0.5, 0.2, 0.3]}


def start(kind, traps):
    roe = dict(kind=kind, dwell=[1.0], dtype="float")
    if kind == "image":
        roe.update(first=True, between=True)
    elif kind == "ci":
        roe.update(n=None, between=True)
    else:
        roe.update(dwell=[1.0, 0.5], n=2, first=True)
    return dict(roe=roe, ccd=dict(frac=[1.0], full=[1000.0], notch=[0.0], power=[0.8]), traps=deepcopy(traps))


def actions(kind):
    out = [["phases", 1], ["phases", 2], ["phases", 3], ["dtype", "int"], ["dtype", "float"], ["dwell", 0.3], ["dwell", 2.0],
           ["full", 700.0], ["notch", 5.0], ["power", 0.4], ["frac", 0.5], ["density", 900.0], ["density", 3.0]]
    if kind == "image":
        out += [["first", False], ["between", False], ["between", True]]
    elif kind == "ci":
        out += [["n", 1], ["n", 4], ["between", False]]
    else:
        out += [["n", 1], ["n", 3], ["first", False]]
    return out


def alter(spec, a):
    """The settings after action a."""
    spec = deepcopy(spec)
    roe, ccd = spec["roe"], spec["ccd"]
    what, x = a
    p = len(ccd["frac"])
    if what == "phases":
        spec["ccd"] = dict(frac=list(FRAC[x]), **deepcopy(WELL[x]))
        roe["dwell"] = [0.9 / (1 + k) for k in range(2 * x if roe["kind"] == "pump" else x)]
    elif what == "dwell":
        roe["dwell"] = [x] + roe["dwell"][1:]
    elif what in ("full", "notch", "power"):
        ccd[what] = [x] * p
    elif what == "frac":
        ccd["frac"] = [x] + ccd["frac"][1:]
    elif what == "density":
        spec["traps"][0][0][1] = x
    else:
        roe[what] = x
    return spec


class Objects:
    def __init__(self, spec):
        self.roe = world.roe(spec["roe"])
        self.ccd = world.ccd(spec["ccd"])
        self.traps = world.traps(spec["traps"], "nested")


def assign(o, spec, a):
    """The same on the real objects; spec: the settings after it."""
    what, x = a
    ccd, roe = spec["ccd"], spec["roe"]
    if what == "phases":
        o.ccd.fraction_of_traps_per_phase = list(ccd["frac"])
        o.ccd.full_well_depth = list(ccd["full"])
        o.ccd.well_fill_power = list(ccd["power"])
        o.ccd.well_notch_depth = list(ccd["notch"])
        o.ccd.well_bloom_level = None
        o.roe.dwell_times = list(roe["dwell"])
    elif what == "dwell":
        # a single step may be given as a number
        o.roe.dwell_times = x if len(roe["dwell"]) == 1 else list(roe["dwell"])
    elif what == "full":
        o.ccd.full_well_depth = x
    elif what == "notch":
        o.ccd.well_notch_depth = x
    elif what == "power":
        o.ccd.well_fill_power = x
    elif what == "frac":
        o.ccd.fraction_of_traps_per_phase = list(ccd["frac"])
    elif what == "density":
        o.traps[0][0].density = x
    elif what == "dtype":
        o.roe.express_matrix_dtype = int if x == "int" else float
    elif what == "first":
        o.roe.empty_traps_for_first_transfers = x
    elif what == "between":
        o.roe.empty_traps_between_columns = x
    elif roe["kind"] == "pump":
        o.roe.n_pumps = x
    else:
        o.roe.n_pixel_transfers = x


def cases(tier):
    deep = tier == "thorough"
    for name in ("mixed", "instants", "slows", "dense-mixed") if deep else ("mixed",):
        for kind in ("image", "ci", "pump"):
            for first in actions(kind):
                yield dict(traps=I.TRAPS[name], kind=kind, first=first, depth=4 if deep else 3, rows=3, express=[0, 1, 2] if deep else [0, 2], values=[6.0, 700.0])


def run_case(case, rec):
    kind = case["kind"]
    image = world.all_columns(case["values"], case["rows"])
    fresh = {}

    def use(o):
        out = []
        for express in case["express"]:
            kw = dict(parallel_ccd=o.ccd, parallel_roe=o.roe, parallel_traps=o.traps, parallel_express=express)
            if kind == "pump":
                kw["parallel_window_range"] = 1
            rec.evals += image.shape[1]
            out.append(np.array(world.ac.add_cti(image.copy(), **kw)))
        return np.array(out)

    def step(objs, a, hist):
        o, spec = objs
        objs[1] = spec = alter(spec, a)
        key = repr(spec)
        if key not in fresh:
            fresh[key] = use(Objects(spec))
        assign(o, spec, a)
        got = use(o)
        rec.label(a[0])
        rec.seen_arrays(key, got)
        if not world.close(got, fresh[key]):
            rec.violation(
                "after changing settings: " + world.worst(got, fresh[key]), history=hist, settings=spec,
                got=got.tolist(), want=fresh[key].tolist(),
            )
            return False
        return True

    spec = start(kind, case["traps"])
    root = [Objects(spec), spec]
    use(root[0])
    H.explore_after(root, [case["first"]], actions(kind), case["depth"], step, rec)
    rec.sample(**case)
