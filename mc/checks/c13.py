"""The well-filling function: every electron count class, parameter shape and access route."""
import itertools
import math

from mc import world

LEVEL = "exploration"
RULE = (
    "For every device in the bounds and every phase, all four ways of asking for the filled volume, on the "
    "whole grid of electron counts (which contains every boundary and both its neighbouring floats), must give the "
    "documented power law, never decrease along the grid, and stay in [0, 1]. Rounding of a part in 1e13 of the counts is allowed for. Distinct, non-trivial: (phase "
    "parameters, electron count) with 0 < volume < 1."
)
BOUNDS = {
    "quick": "1-3 phases (some with 5, 8); every assignment of a scalar or a per-phase list to each parameter (values from a grid of 3 "
    "full wells, 3 notches, 4 powers); via the constructor or the setters in every order; lists of lengths 0-4",
    "thorough": "the same with 1-4 phases (some with 5, 8, 20) and grids of 4-5 values",
}

FULL = [1000.0, 84700.0, 50.0, 3.0]
NOTCH = [0.0, 7.5, 2.0]
POWER = [0.8, 1.0, 0.478, 2.5]
NAMES = ["full_well_depth", "well_notch_depth", "well_fill_power", "well_bloom_level"]


def values(name, n, salt):
    grid = {"full_well_depth": FULL[:3], "well_notch_depth": NOTCH, "well_fill_power": POWER,
            "well_bloom_level": [900.0, 400.0, 30.0]}[name]
    return [grid[(i + salt) % len(grid)] for i in range(n)]


def cases(tier):
    deep = tier == "thorough"
    for n in range(1, 5 if deep else 4):
        for shape in itertools.product(("default", "scalar", "list"), repeat=4):
            for salt in range(12 if deep else 3):
                yield {"part": "values", "n": n, "shape": shape, "salt": salt}
        for shape in itertools.product(("scalar", "list"), repeat=3):
            for order in itertools.permutations(range(3)):
                yield {"part": "setters", "n": n, "shape": shape, "order": order}
        for name in NAMES:
            for wrong in range(6):
                if wrong != n:
                    yield {"part": "lengths", "n": n, "name": name, "wrong": wrong}
    for n in (5, 8, 20) if deep else (5, 8):
        for shape in (("list", "list", "list", "list"), ("list", "scalar", "list", "default"), ("scalar", "list", "list", "list")):
            yield {"part": "values", "n": n, "shape": shape, "salt": 1}
        for name in NAMES:
            for wrong in (n - 1, n + 1):
                yield {"part": "lengths", "n": n, "name": name, "wrong": wrong}
    for full in FULL:
        for notch in NOTCH:
            if notch < full:
                for power in POWER:
                    yield {"part": "grid", "full": full, "notch": notch, "power": power, "deep": deep}


def law(x, full, notch, power):
    if x == 0:
        return 0.0
    return min(max((x - notch) / (full - notch), 0.0), 1.0) ** power


def counts(full, notch, fine=40):
    out = {0.0, 1e-12, 1e-6, 0.5, 1.0, 2.0, 1e5, 1e9, -1.0, -1e-9}
    for b in (full, notch, 0.5 * (full + notch)):
        out |= {b, math.nextafter(b, -math.inf), math.nextafter(b, math.inf), b * 1.001 + 1e-3, b * 0.999, 2 * b}
    for i in range(fine + 1):
        out.add(notch + (full - notch) * i / fine)
        out.add(notch + (full - notch) * 10.0 ** (-8.0 * i / fine))
    return sorted(out)


def routes(device, phase, x):
    ac = world.ac
    f = device.well_filling_function(phase)
    p = ac.CCDPhase(device, phase)
    yield "method", device.cloud_fractional_volume_from_n_electrons_and_phase(x, phase)
    yield "keywords", device.cloud_fractional_volume_from_n_electrons_and_phase(n_electrons=x, phase=phase)
    yield "function", f(x)
    yield "keyword function", device.well_filling_function(phase=phase)(n_electrons=x)
    yield "phase object", p.cloud_fractional_volume_from_n_electrons(x)


def examine(rec, device, want, fine=40, what=""):
    """want: per-phase lists of full, notch, power, bloom, fraction."""
    ac = world.ac
    n = len(want["frac"])
    if device.n_phases != n:
        rec.violation("number of phases", got=device.n_phases, want=n)
        return
    for name, key in (
        ("fraction_of_traps_per_phase", "frac"), ("full_well_depth", "full"), ("well_notch_depth", "notch"),
        ("well_fill_power", "power"), ("well_bloom_level", "bloom"),
    ):
        if want[key] is None:
            continue
        if list(getattr(device, name)) != list(want[key]):
            rec.violation(what + name + " of the device", got=list(getattr(device, name)), want=want[key])
        for k in range(n):
            if getattr(ac.CCDPhase(device, k), name) != want[key][k]:
                rec.violation(what + name + " of a phase", phase=k, got=getattr(ac.CCDPhase(device, k), name))
    for k in range(n):
        full, notch, power = want["full"][k], want["notch"][k], want["power"][k]
        last = 0.0
        for x in counts(full, notch, fine):
            expect = law(x, full, notch, power)
            # what rounding of the counts allows
            slack = 1e-13 * max(abs(x), full)
            low, high = (law(x - slack, full, notch, power), law(x + slack, full, notch, power)) if x else (0, 0)
            for route, got in routes(device, k, x):
                rec.evals += 1
                if not (low - 1e-12 <= got <= high + 1e-12 and 0 <= got <= 1):
                    rec.violation(what + "filled volume by " + route, phase=k, electrons=x, got=got, want=expect,
                                  full=full, notch=notch, power=power)
                    return
            if got < last - (high - low) - 1e-12:
                rec.violation(what + "filled volume decreases", phase=k, electrons=x, got=got, before=last)
            last = got
            if 0 < got < 1:
                rec.seen(full, notch, power, x)
    # functions and phase objects of all the phases obtained first (in either order), then used in turn,
    # also after asking about the other phases
    for order in (list(range(n)), list(range(n))[::-1]):
        functions, phases = {}, {}
        for k in order:
            functions[k] = device.well_filling_function(k)
            phases[k] = ac.CCDPhase(device, k)
        for last in [None] + list(range(n)):
            if last is not None:
                device.cloud_fractional_volume_from_n_electrons_and_phase(1.0, last)
            for k in range(n):
                full, notch, power = want["full"][k], want["notch"][k], want["power"][k]
                for x in (0.5 * (full + notch), 0.75 * full + 0.25 * notch, full):
                    expect = law(x, full, notch, power)
                    for got in (functions[k](x), phases[k].cloud_fractional_volume_from_n_electrons(x)):
                        rec.evals += 1
                        if not abs(got - expect) <= 1e-12:
                            rec.violation(what + "a function obtained earlier, used after other phases were asked for",
                                          phase=k, electrons=x, got=got, want=expect, order=order, last=last)
                            return


def run_case(case, rec):
    ac = world.ac
    if case["part"] == "grid":
        device = ac.CCD(full_well_depth=case["full"], well_notch_depth=case["notch"], well_fill_power=case["power"])
        examine(
            rec, device,
            {"frac": [1], "full": [case["full"]], "notch": [case["notch"]], "power": [case["power"]],
             "bloom": [case["full"]]},
            fine=20000 if case["deep"] else 2000,
        )
        # the default phase is phase 0
        for x in counts(case["full"], case["notch"], 5):
            a = device.cloud_fractional_volume_from_n_electrons_and_phase(x)
            if not a == device.well_filling_function()(x) == device.well_filling_function(0)(x):
                rec.violation("default phase", electrons=x)
        rec.sample(device=case, electrons=0.5 * case["full"], volume=device.well_filling_function(0)(0.5 * case["full"]))
        return
    n = case["n"]
    frac = [1.0] if n == 1 else [round((i + 1) / (n * (n + 1) / 2), 6) for i in range(n)]
    if case["part"] == "values":
        kw, want = {}, {"frac": frac}
        for name, key, shape, default in zip(
            NAMES, ("full", "notch", "power", "bloom"), case["shape"], (1e4, 0.0, 0.58, None)
        ):
            v = values(name, n, case["salt"])
            if shape == "list":
                kw[name] = v
                want[key] = list(v)
            elif shape == "scalar":
                kw[name] = v[0]
                want[key] = [v[0]] * n
            else:
                want[key] = [default] * n
        if case["shape"][3] == "default":
            want["bloom"] = list(want["full"])
        for fractions in ([frac, 1.0] if n == 1 else [frac]):
            device = ac.CCD(fraction_of_traps_per_phase=fractions, **kw)
            examine(rec, device, want, fine=8)
        # another device made later must not share anything with this one
        ac.CCD(fraction_of_traps_per_phase=frac, full_well_depth=1.0, well_notch_depth=0.5, well_fill_power=3.0)
        examine(rec, device, want, fine=2, what="after making another device: ")
        return
    if case["part"] == "setters":
        device = ac.CCD(fraction_of_traps_per_phase=frac)
        want = {"frac": frac, "full": [1e4] * n, "notch": [0.0] * n, "power": [0.58] * n, "bloom": None}
        for i in case["order"]:
            name, key = NAMES[i], ("full", "notch", "power")[i]
            v = values(name, n, 1)
            setattr(device, name, v if case["shape"][i] == "list" else v[0])
            want[key] = list(v) if case["shape"][i] == "list" else [v[0]] * n
            examine(rec, device, want, fine=8, what="after setting %s: " % name)
        # changing the number of phases, then describing them
        device.fraction_of_traps_per_phase = [0.25] * 4
        for name in NAMES:
            setattr(device, name, values(name, 4, 2))
        examine(
            rec, device,
            {"frac": [0.25] * 4, "full": values(NAMES[0], 4, 2), "notch": values(NAMES[1], 4, 2),
             "power": values(NAMES[2], 4, 2),
             "bloom": values(NAMES[3], 4, 2)}, fine=8, what="after adding phases: ",
        )
        return
    # lists of the wrong length
    bad = values(case["name"], case["wrong"], 0)
    rec.evals += 2
    rec.seen("length", n, case["name"], case["wrong"])
    try:
        ac.CCD(fraction_of_traps_per_phase=frac, **{case["name"]: bad})
        rec.violation("a list of the wrong length was accepted", case=case)
    except ValueError:
        pass
    device = ac.CCD(fraction_of_traps_per_phase=frac)
    old = list(getattr(device, case["name"]))
    try:
        setattr(device, case["name"], bad)
        rec.violation("a list of the wrong length was accepted by the setter", case=case)
    except ValueError:
        if list(getattr(device, case["name"])) != old:
            rec.violation("a rejected list was kept", case=case)
