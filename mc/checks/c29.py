"""Settings that are refused: every sequence of valid and invalid assignments."""
from copy import deepcopy

import numpy as np

from mc import histories as H, images as I, world

LEVEL = "model_checking"
RULE = (
    "State: one real object and the settings it has accepted. Transition: assigning a valid value, which must be taken, or an invalid "
    "one (of the kinds the code documents as refused), which must raise and leave every setting, and the result of adding CTI, as before. "
    "All sequences up to the depth; identical states (bit for bit) are merged. Building an object with an invalid value must raise too. "
    "Distinct: states reached."
)
BOUNDS = {
    "quick": "sequences of 5 of 7-22 assignments on 3 readout classes, CCDs of 1-3 phases, and trap managers of 1-3 species; dates before launch",
    "thorough": "sequences of 7",
}


def lists(n, values):
    return [round(values[0] + values[1] * k, 3) for k in range(n)]


def actions(what):
    """[attribute, value, is it valid]"""
    out = []
    if what.startswith("ROE"):
        out += [["express_matrix_dtype", "int", True], ["express_matrix_dtype", "float", True]]
        out += [["express_matrix_dtype", x, False] for x in ("bool", "complex", "np.float64", "np.int64", "name", "None", "1")]
        if what == "ROETrapPumping":
            out += [["dwell_times", x, len(x) % 2 == 0] for x in ([0.5, 0.4], [1.0, 0.3, 0.7, 0.2], [1.0], [0.5, 0.4, 0.3], [0.1] * 5, [0.2] * 6)]
            out += [["dwell_times", 2.0, False]]
        else:
            out += [["dwell_times", x, True] for x in ([1.0], 0.5, [0.5, 0.4])]
    elif what.startswith("CCD"):
        n = int(what[3:])
        for name, v in (("full_well_depth", [800.0, 50.0]), ("well_fill_power", [0.5, 0.1]), ("well_notch_depth", [2.0, 1.0]), ("well_bloom_level", [700.0, 10.0])):
            out += [[name, lists(m, v), m == n] for m in (0, 1, 2, 3, 4)]
            out += [[name, v[0], True]]
    elif what.startswith("traps"):
        n = int(what[5:7])
        out += [["n_traps_per_pixel", lists(m, [3.0, 7.0]), m == n] for m in (0, 1, 2, 3, 4)]
        out += [["n_traps_per_pixel", lists(n, [40.0, -5.0]), True], ["cloud", 60.0, True], ["cloud", 0.0, True], ["empty", 0, True]]
    return out


TYPES = {"int": int, "float": float, "bool": bool, "complex": complex, "np.float64": np.float64, "np.int64": np.int64, "name": "float", "None": None, "1": 1}
OBJECTS = ["ROE", "ROEChargeInjection", "ROETrapPumping", "CCD1", "CCD2", "CCD3"] + [
    "traps%02d%s" % (n, k) for n in (1, 2, 3) for k in ("instant", "slow", "time")
]


def cases(tier):
    for what in OBJECTS:
        for first in actions(what):
            yield dict(what=what, first=first, depth=7 if tier == "thorough" else 5)
        yield dict(what=what, first=None, depth=0)
    yield dict(what="dates", first=None, depth=0)


class Thing:
    pass


def build(what):
    ac = world.ac
    x = Thing()
    if what.startswith("ROE"):
        x.real = getattr(ac, what)()
        x.accepted = dict(dwell_times=[0.5, 0.5] if what == "ROETrapPumping" else [1], express_matrix_dtype=float)
    elif what.startswith("CCD"):
        n = int(what[3:])
        x.real = ac.CCD(fraction_of_traps_per_phase=[1.0 / n] * n, full_well_depth=900.0, well_notch_depth=1.0, well_fill_power=0.7)
        x.accepted = dict(full_well_depth=[900.0] * n, well_notch_depth=[1.0] * n, well_fill_power=[0.7] * n, well_bloom_level=[900.0] * n)
    else:
        n = int(what[5:7])
        species = [[10.0 + k, 1.5 + k] + ([0.3] if what.endswith("slow") else []) for k in range(n)]
        x.real = H.manager(what[7:], species, 12)
        x.accepted = dict(n_traps_per_pixel=[10.0 + k for k in range(n)])
    return x


def result(what, real):
    """The effect of a readout or a CCD on an image."""
    image = world.all_columns([6.0, 700.0], 3)
    ac = world.ac
    kw = dict(parallel_traps=world.traps(I.TRAPS["mixed"]))
    if what.startswith("ROE"):
        n = len(real.dwell_times) // (2 if what == "ROETrapPumping" else 1)
        kw.update(parallel_roe=real, parallel_ccd=world.ccd({"frac": [1.0 / n] * n, "full": 1000.0, "notch": 0.0, "power": 0.8}), parallel_express=2)
        if what == "ROETrapPumping":
            kw.update(parallel_window_range=1)
    else:
        n = int(what[3:])
        kw.update(parallel_ccd=real, parallel_roe=ac.ROE(dwell_times=[0.5] * n))
    return np.array(ac.add_cti(image, **kw))


def holds(rec, what, x, hist):
    for k, v in x.accepted.items():
        got = getattr(x.real, k)
        if (list(got) != list(v)) if isinstance(v, list) else (got is not v):
            rec.violation("%s is %r, the last value accepted was %r" % (k, got, v), history=hist, object=what)
            return False
    return True


def run_case(case, rec):
    what = case["what"]
    rec.sample(**case)
    if what == "dates":
        dates(rec)
        return
    if case["first"] is None:
        built(rec, what)
        return
    fill = H.well({"frac": [1.0], "full": 1000.0, "notch": 2.0, "power": 0.7})

    def step(objs, a, hist):
        (x,) = objs
        name, value, valid = a
        rec.evals += 1
        if name == "cloud":
            x.real.n_electrons_released_and_captured(n_free_electrons=value, ccd_filling_function=fill, dwell_time=0.6)
            return holds(rec, what, x, hist)
        if name == "empty":
            x.real.empty_all_traps()
            return holds(rec, what, x, hist)
        given = TYPES[value] if name == "express_matrix_dtype" else list(value) if isinstance(value, list) else value
        before = None if valid else H.freeze(x.real)
        old = None if valid else deepcopy(x.real)
        held = H.trapped(x.real) if what.startswith("traps") else None
        try:
            setattr(x.real, name, given)
        except Exception as e:
            rec.label("refused")
            if valid:
                rec.violation("%s = %r was refused: %r" % (name, given, e), history=hist, object=what)
                return False
        else:
            rec.label("taken")
            if not valid:
                rec.violation("%s = %r was not refused" % (name, given), history=hist, object=what)
                return False
            if name in ("dwell_times", "express_matrix_dtype"):
                x.accepted[name] = given if isinstance(given, (list, type)) else [given]
            else:
                x.accepted[name] = list(given) if isinstance(given, list) else [given] * len(x.accepted[name])
        if not holds(rec, what, x, hist):
            return False
        if not valid:
            if what.startswith("traps"):
                if H.trapped(x.real) != held:
                    rec.violation("a refused %s changed the electrons held" % name, history=hist, object=what)
                    return False
            elif H.freeze(x.real) != before:
                # not bit for bit the same: it must at least do the same
                now, image = result(what, x.real), result(what, old)
                if not world.close(now, image):
                    rec.violation("a refused %s changed the result: %s" % (name, world.worst(now, image)), history=hist, object=what)
                    return False
        rec.seen(what, H.freeze(x.real))
        return True

    H.explore_after([build(what)], [case["first"]], actions(what), case["depth"], step, rec)


def built(rec, what):
    """Building with one valid or invalid value."""
    ac = world.ac
    for name, value, valid in actions(what):
        if name in ("cloud", "empty") or name == "n_traps_per_pixel":
            continue
        given = TYPES[value] if name == "express_matrix_dtype" else list(value) if isinstance(value, list) else value
        kw = {name: given}
        if what.startswith("CCD"):
            n = int(what[3:])
            kw["fraction_of_traps_per_phase"] = [1.0 / n] * n
        rec.evals += 1
        rec.states += 1
        try:
            x = getattr(ac, what.rstrip("123"))(**kw)
        except Exception as e:
            rec.label("refused to build")
            if valid:
                rec.violation("%s(%s) was refused: %r" % (what, kw, e))
        else:
            rec.label("built")
            if not valid:
                rec.violation("%s(%s) was not refused" % (what, kw))
            got = getattr(x, name)
            rec.seen(what, name, repr(got))


def dates(rec):
    launch = 2452334.5
    before = [launch - 2.0**k for k in range(-20, 21)] + [float(np.nextafter(launch, 0)), 0.0, -1.0, -launch, 51544.5, 2000.0, 2010.5]
    after = [launch + 2.0**k for k in range(-20, 14)] + [launch, float(np.nextafter(launch, np.inf))]
    for date in before + after:
        rec.evals += 1
        rec.states += 1
        rec.seen(date)
        try:
            made = world.ac.model_for_HST_ACS(date)
        except Exception as e:
            rec.label("date refused")
            if date >= launch:
                rec.violation("date %r was refused: %r" % (date, e))
        else:
            rec.label("date taken")
            if date < launch:
                rec.violation("date %r, before launch, was not refused: %s" % (date, [t.density for t in made[0]]))
