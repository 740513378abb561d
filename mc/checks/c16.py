"""Regrouping trap species: which changes must not change the image."""
import itertools
import math

import numpy as np

from mc import images as I, readout, world

LEVEL = "exploration"
RULE = (
    "Every column over the alphabet, with every regrouping in the bounds, must give the image of the original "
    "grouping: all orders of the species and of the groups, splits of a species, species of zero density, bare "
    "or listed species. Where no cloud's volume depends on what the traps hold, the effects must add up over "
    "species and groups. The effect of a group on ellipticity is the fit of each species, added up. With more traps than charge, no column may gain charge. Distinct, non-trivial: (column, output) where traps acted."
)
BOUNDS = {
    "quick": "all columns of up to 4 pixels over 3-4 values (3 with continuum traps); up to 3 species of each kind, all their "
    "orders, 9 rotated, 4 splits; up to 3 groups in all orders, 5 rotated; imaging, injection, pumping and 3-phase clocking; express 0 and 1",
    "thorough": "columns of up to 5 pixels; up to 4 species, all orders; 6 splits; express 0-3",
}
SPECIES = {
    "instant": [["instant", 20.0, 2.0], ["instant", 8.0, 0.4], ["instant", 300.0, 30.0], ["instant", 5.0, 5.0]],
    "slow": [["slow", 20.0, 2.0, 0.3], ["slow", 30.0, 7.0, 1.5], ["slow", 400.0, 0.6, 0.1], ["slow", 4.0, 1.0, 5.0]],
    "zero": [["slow", 20.0, 2.0, 0.0], ["slow", 30.0, 7.0, 1.5], ["slow", 400.0, 0.6, 0.1], ["slow", 4.0, 1.0, 5.0]],
    "cont": [["cont", 20.0, 2.0, 0.5], ["cont", 8.0, 0.4, 0.2]],
}
SPLITS = [[0.5, 0.5], [0.25, 0.75], [0.1, 0.2, 0.7], [1.0, 0.0], [0.0, 1.0, 0.0], [0.9, 0.05, 0.05]]
WIDE = {"frac": [1.0], "full": 1000.0, "notch": 100.0, "power": 0.8}
LINEAR = {"frac": [1.0], "full": 1000.0, "notch": 0.0, "power": 1.0}
CCD3 = {"frac": [0.5, 0.2, 0.3], "full": 1000.0, "notch": 0.0, "power": 0.7}
CCD2 = {"frac": [0.4, 0.6], "full": 1000.0, "notch": 2.0, "power": 0.7}
READOUTS = {
    "imaging": (dict(kind="image", dwell=[1.0]), I.CCDS["plain"]),
    "continuing": (dict(kind="image", dwell=[1.0], first=False), I.CCDS["notch"]),
    "injection": (dict(kind="ci", dwell=[1.0]), I.CCDS["plain"]),
    "three phases": (dict(kind="image", dwell=[0.5, 0.8, 1.0]), CCD3),
    "pumping": (dict(kind="pump", dwell=[0.5, 0.6, 0.7, 0.8], n=3), CCD2),
}


def cases(tier):
    deep = tier == "thorough"
    for part in ("orders", "splits"):
        for kind in sorted(SPECIES):
            for how in sorted(READOUTS):
                sizes = (1, 2, 3) if kind == "cont" and deep else (1, 2) if kind == "cont" else (2, 3, 4, 5) if deep else (2, 3, 4)
                for rows in sizes:
                    if how in ("pumping", "three phases") and rows > (4 if deep else 3 if part == "orders" else 2) or kind == "cont" and how != "imaging" and not deep:
                        continue
                    for express in (0,) if kind == "cont" else (0, 1, 2, 3) if deep else (0, 1):
                        counts = (1,) if part == "splits" else (2, 3, 4) if deep else (2, 3)
                        for count in counts:
                            if count <= len(SPECIES[kind]):
                                yield dict(part=part, kind=kind, how=how, rows=rows, express=express, count=count, deep=deep)
    for rows in (1, 2, 3, 4) if deep else (1, 2, 3):
        for how in sorted(READOUTS):
            if rows > 2 and how in ("pumping", "three phases") and not deep:
                continue
            yield dict(part="groups", how=how, rows=rows)
            yield dict(part="forms", how=how, rows=rows)
            if how != "continuing":  # where every pass restores traps that an earlier one also read out
                yield dict(part="dense", how=how, rows=rows)
    for kind in ("instant", "slow", "zero", "cont"):
        yield dict(part="ellipticity", how="", rows=1, kind=kind, deep=deep)
    for rows in (1, 2, 3, 4, 5, 6) if deep else (1, 2, 3, 4):
        for how in ("imaging", "continuing", "injection"):
            for express in (0, 1, 2):
                for kinds in (("instant",), ("slow",), ("instant", "slow"), ("instant", "zero", "slow")) + (
                    (("cont",),) if rows < 3 else ()
                ):
                    yield dict(part="add up", how=how, rows=rows, kinds=kinds, express=express)


def run(image, how, traps, ccd=None, express=0, **more):
    roe, default = READOUTS[how]
    kw = dict(
        parallel_ccd=world.ccd(ccd or default), parallel_roe=world.roe(roe), parallel_traps=traps, parallel_express=express,
    )
    kw.update(more)
    return np.asarray(world.ac.add_cti(image.copy(), **kw))


def made(group):
    return [world.species(s) for s in group]


def same(rec, image, a, b, message, **what):
    rec.evals += image.shape[1]
    for c in range(image.shape[1]):
        if np.any(a[:, c] != image[:, c]):
            rec.seen_arrays(image[:, c], a[:, c])
    if not world.close(a, b, rtol=1e-8, atol=1e-7):
        bad = [c for c in range(image.shape[1]) if not world.close(a[:, c], b[:, c], rtol=1e-8, atol=1e-7)]
        rec.violation(
            message + ": " + world.worst(a, b), column=image[:, bad[0]].tolist() if bad else None,
            original=a[:, bad[0]].tolist() if bad else None, other=b[:, bad[0]].tolist() if bad else None, **what
        )


def fit(density, timescale):
    """Israel et al. (2015), as parametrised for trails of charge in the documentation."""
    t = math.log(timescale)
    return density * (
        0.05333 + 0.03357 * math.atan((t - 1.628) / 0.2951) + 0.09901 * math.exp(-0.5 * ((t - 0.4553) / 0.4132) ** 2)
    )


def ellipticity(case, rec):
    """The effect of a species is the fit, that of a group is the sum over it, in any order and however split."""
    ac = world.ac
    rec.label("ellipticity")
    kind = case["kind"]
    grid = [
        [kind if kind != "zero" else "slow", d, t] + {"instant": [], "slow": [0.3], "zero": [0.0], "cont": [0.5]}[kind]
        for d in (0.0, 1e-3, 1.0, 40.0, 1e5)
        for t in (1e-3, 0.2, 0.7, 1.0, 1.6, 2.0, 5.0, 5.1, 30.0, 4e3)
    ]
    which = {"instant": "TrapManagerInstantCapture", "slow": "TrapManager", "zero": "TrapManager", "cont": "TrapManagerTrackTime"}
    manager = getattr(ac.trap_managers, which[kind])
    alone = {}
    for s in grid:
        alone[s[1], s[2]] = world.species(s).delta_ellipticity
        rec.evals += 1
        rec.seen(kind, s[1], s[2])
        if kind != "cont" and not world.close(alone[s[1], s[2]], fit(s[1], s[2]), rtol=1e-9, atol=1e-15):
            rec.violation("ellipticity of one species: %r, fit %r" % (alone[s[1], s[2]], fit(s[1], s[2])), species=s)
            return
    some = grid[::3]
    for count in (1, 2, 3) if case["deep"] else (1, 2):
        for group in itertools.product(some, repeat=count):
            got = manager(traps=made(group), max_n_transfers=2).delta_ellipticity
            rec.evals += 1
            if not world.close(got, sum(alone[s[1], s[2]] for s in group), rtol=1e-9, atol=1e-15):
                rec.violation("ellipticity of a group: %r" % got, group=group, alone=[alone[s[1], s[2]] for s in group])
                return


def run_case(case, rec):
    if case["part"] == "ellipticity":
        return ellipticity(case, rec)
    rec.sample(**case)
    part, rows, how = case["part"], case["rows"], case["how"]
    alphabet = [0.0, 40.0, 700.0] if rows > 3 or case.get("kind") == "cont" else I.ALPHABET
    image = world.all_columns(alphabet, rows)
    if part == "orders":
        group = SPECIES[case["kind"]][: case["count"]]
        base = run(image, how, made(group), express=case["express"])
        for order in itertools.permutations(group):
            if list(order) != list(group):
                other = run(image, how, [made(order)], express=case["express"])
                same(rec, image, base, other, "order of the species", group=group, order=order, how=how)
        if case["count"] == 2 and case["kind"] != "cont":
            # many species
            group = [[s[0], s[1] * f] + [t * f for t in s[2:]] for f in (1.0, 0.3, 2.0) for s in SPECIES[case["kind"]][:3]]
            few = image[:, ::3]
            base = run(few, how, made(group), express=case["express"])
            for k in range(1, len(group)):
                other = run(few, how, [made(group[k:] + group[:k])], express=case["express"])
                same(rec, few, base, other, "order of nine species", group=group, how=how)
    elif part == "splits":
        group = SPECIES[case["kind"]]
        for i in range(len(group)):
            if not case["deep"] and i == 3:
                continue
            base = run(image, how, made(group[:2] if i < 2 else [group[i]]), express=case["express"])
            for split in SPLITS if case["deep"] else SPLITS[:4]:
                parts = [[group[i][0], group[i][1] * f] + group[i][2:] for f in split]
                rest = [group[1 - i]] if i < 2 else []
                for new in (parts + rest, rest + parts) if i < 2 else (parts,):
                    same(rec, image, base, run(image, how, made(new), express=case["express"]), "split species",
                         species=group[i], split=split, how=how)
            # a species that is not there
            none = [group[i][0], 0.0] + group[0][2:]
            with_none = [none] + (group[:2] if i < 2 else [group[i]])
            same(rec, image, base, run(image, how, made(with_none), express=case["express"]), "species of zero density",
                 group=with_none, how=how)
    elif part == "forms":
        for kind in ("instant", "slow", "zero") + (("cont",) if rows == 1 else ()):
            s = SPECIES[kind][0]
            one = world.species(s)
            base = run(image, how, [[one]])
            same(rec, image, base, run(image, how, [one]), "species in a list", species=s, how=how)
            same(rec, image, base, run(image, how, one), "bare species", species=s, how=how)
            empty = [s[0], 0.0] + s[2:]
            same(rec, image, base, run(image, how, [[one], made([empty])]), "group of zero density", species=s, how=how)
            same(rec, image, base, run(image, how, [made([empty]), [one]]), "group of zero density first", species=s, how=how)
            same(rec, image, image, run(image, how, world.species(empty)), "only a species of zero density", species=s, how=how)
            flat = made(SPECIES[kind][:2])
            same(rec, image, run(image, how, [flat]), run(image, how, flat), "flat list", species=s, how=how)
    elif part == "groups":
        # few traps and a linear well: charge always suffices for every group
        groups = [[["instant", 2.0, 2.0], ["instant", 1.0, 0.5]], [["slow", 3.0, 2.0, 0.3]], [["instant", 1.5, 9.0]],
                  [["slow", 1.0, 0.4, 0.0], ["slow", 2.0, 6.0, 2.0]], [["instant", 0.7, 30.0]]]
        roe, ccd = READOUTS[how]
        ccd = dict(ccd, power=1.0, notch=0.0)
        # species of zero density, anywhere in any of the groups
        for chosen in (groups[:2], [groups[1], groups[0]], groups[:3]):
            base = run(image, how, world.traps(chosen), ccd=ccd)
            for i, group in enumerate(chosen):
                for j in range(len(group) + 1):
                    none = [group[0][0], 0.0, 3.3] + group[0][3:]
                    more = chosen[:i] + [group[:j] + [none] + group[j:]] + chosen[i + 1:]
                    same(rec, image, base, run(image, how, world.traps(more), ccd=ccd), "species of zero density among several groups",
                         groups=more, how=how)
                more = chosen[:i] + [[[s[0], 0.0] + s[2:] for s in group]] + chosen[i:]
                same(rec, image, base, run(image, how, world.traps(more), ccd=ccd), "group of zero density among several", groups=more, how=how)
        for chosen in (groups[:2], groups[:3], [groups[0], groups[2]]) + ((groups,) if rows < 3 and how in ("imaging", "injection") else ()):
            base = run(image, how, world.traps(chosen), ccd=ccd)
            for order in itertools.permutations(chosen) if len(chosen) < 5 else (chosen[k:] + chosen[:k] for k in range(5)):
                if list(order) != list(chosen):
                    same(rec, image, base, run(image, how, world.traps(order), ccd=ccd), "order of the groups",
                         groups=chosen, order=order, how=how)
    elif part == "dense":
        for groups in (
            I.TRAPS["dense-mixed"],
            [[["slow", 800.0, 5.0, 0.3]], [["instant", 700.0, 2.0]]],
            [[["instant", 500.0, 2.0]], [["instant", 500.0, 0.7]], [["instant", 500.0, 20.0]]],
            [[["slow", 900.0, 2.0, 0.1]], [["slow", 900.0, 9.0, 0.1]]],
        ):
            for between in ("emptied", "kept"):
                roe = dict(READOUTS[how][0])
                if roe["kind"] == "pump" and between == "kept":
                    continue
                roe["between"] = between == "emptied"
                for c in range(image.shape[1]) if between == "emptied" else (None,):
                    columns = image if c is None else image[:, c:c + 1]
                    got = run(columns, how, world.traps(groups), parallel_roe=world.roe(roe))
                    rec.evals += columns.shape[1]
                    rec.seen_arrays(columns, got)
                    if got.min() < 0 or got.sum() > columns.sum() * (1 + 1e-9) + 1e-7:
                        rec.violation(
                            "more charge than there was: %r of %r" % (got.sum(), columns.sum()), groups=groups, how=how,
                            between=between, column=columns.T.tolist()[:3], got=got.T.tolist()[:3],
                        )
                        return
    else:
        # pixels are empty or well above full; what is released stays below the notch
        image = world.all_columns([0.0, 5000.0, 3000.0], rows)
        few = {"instant": [["instant", 2.0, 2.0], ["instant", 3.0, 0.7]], "slow": [["slow", 2.5, 2.0, 0.3], ["slow", 1.5, 0.8, 1.1]],
               "zero": [["slow", 2.0, 3.0, 0.0]], "cont": [["cont", 2.0, 1.5, 0.4]]}
        single = {}
        want = image.copy()
        for kind in case["kinds"]:
            for s in few[kind]:
                alone = run(image, how, world.species(s), ccd=WIDE, express=case["express"])
                want += alone - image
        groups = [few[kind] for kind in case["kinds"]]
        apart = [[s] for kind in case["kinds"] for s in few[kind]]
        doubled = [[s] for kind in case["kinds"] for s in few[kind] for _ in range(2)]
        same(rec, image, want, run(image, how, world.traps(groups), ccd=WIDE, express=case["express"]), "effects add up",
             groups=groups, how=how, express=case["express"])
        same(rec, image, want, run(image, how, world.traps(apart), ccd=WIDE, express=case["express"]), "separate groups add up",
             groups=apart, how=how, express=case["express"])
        same(rec, image, 2 * want - image, run(image, how, world.traps(doubled), ccd=WIDE, express=case["express"]),
             "twice the traps", groups=doubled, how=how, express=case["express"])
