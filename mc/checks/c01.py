"""Charge balance of every history of clouds: net released = decrease in trapped."""
from mc import histories as H, world

LEVEL = "model_checking"
RULE = (
    "State: everything the real trap manager holds. Transition: one passage of a cloud "
    "(size x dwell time), or emptying the traps, run on the real manager. Identical states (bit for bit) are merged. "
    "A state is non-trivial if traps hold charge in it; distinct states are counted by hash. "
    "traces: number of histories of full length covered by the merged graph, every edge of which "
    "was executed on the implementation."
)
BOUNDS = {
    "quick": "all histories of 4 passages (continua: 3) over 16 (cloud, dwell) actions and emptying, per configuration; and, after 3 longer histories each "
    "that leave 5 levels behind (emptied or not), all that go on for 2 more (continua: 1); the same after 3 that leave 40",
    "thorough": "all histories of 5 passages (continua: 4) over 18-22 actions, per configuration; and 1 more than quick after the longer histories",
}
WELLS = {
    "notch": {"frac": [1.0], "full": 1000.0, "notch": 5.0, "power": 0.6},
    "plain": {"frac": [1.0], "full": 1000.0, "notch": 0.0, "power": 1.0},
    "deep": {"frac": [1.0], "full": 1000.0, "notch": 0.0, "power": 0.3},
}
SPECIES = {
    "instant": [[[8.0, 1.5]], [[600.0, 1.5], [400.0, 5.0]], [[60.0, 0.7], [0.0, 2.0], [900.0, 20.0]]],
    "time": [[[8.0, 1.5]], [[600.0, 1.5], [400.0, 5.0]]],
    "slow": [[[8.0, 1.5, 0.3]], [[600.0, 1.5, 0.3], [400.0, 5.0, 0.05]], [[700.0, 2.0, 0.0], [300.0, 0.5, 4.0]]],
    "cont": [[[600.0, 1.5, 0.7]]],
}
CLOUDS = {
    "notch": [0.0, 4.0, 5.5, 8.0, 60.0, 400.0, 1000.0, 1500.0],
    "plain": [0.0, 0.01, 2.0, 30.0, 250.0, 600.0, 999.0, 1200.0],
    "deep": [0.0, 1e-6, 1.0, 9.0, 80.0, 500.0, 1000.0, 5000.0],
}
DWELLS = [0.4, 3.0]


def starts(clouds):
    """Histories to begin from that leave several levels behind, emptied or not."""
    falling = sorted(set(clouds))[::-1][:5]
    falling = [[n, 0.4] for n in falling if n > 0]
    return [falling + [["empty"]], falling, falling[::-1] + [["empty"]]]


def many(kind):
    """Histories to begin from that leave 40 levels behind (or had, before the last cloud filled them)."""
    if kind == "cont":
        return []
    falling = [[round(1000.0 * 0.92**k + 6.0, 6), 0.05] for k in range(40)]
    return [falling, falling + [[200.0, 0.4]], falling + [["empty"]] + falling[::8]]


def cases(tier):
    deep = tier == "thorough"
    for kind in ("instant", "slow", "time", "cont"):
        for species in SPECIES[kind]:
            for w in ("notch", "plain", "deep"):
                if kind == "cont":
                    if w == "deep" and not deep:
                        continue
                    depth = 4 if deep else 3
                else:
                    depth = 5 if deep else 4
                acts = [[n, d] for n in CLOUDS[w] for d in (DWELLS + ([0.05] if deep and kind != "cont" else []))]
                if kind == "cont":
                    acts = [a for a in acts if a[1] == 0.4 or a[0] in (0.0, CLOUDS[w][3])]
                    acts = acts[:: 1 if deep else 2]
                acts.append(["empty"])
                for first in acts[:-1]:
                    yield dict(kind=kind, species=species, well=w, first=first, actions=acts, depth=depth)
                for start in starts(CLOUDS[w]):
                    yield dict(
                        kind=kind, species=species, well=w, start=start, first=start[0], actions=acts,
                        depth=len(start) + depth - 2,
                    )
                for start in many(kind):
                    yield dict(
                        kind=kind, species=species, well=w, start=start, first=start[0], actions=acts,
                        depth=len(start) + (3 if deep else 2), n=60,
                    )


def run_case(case, rec):
    kind = case["kind"]
    tm = H.manager(kind, case["species"], case.get("n", 8))
    fill = H.well(WELLS[case["well"]])
    dens = [s[0] for s in case["species"]]
    cap = sum(dens)
    slack = 1e-6 if kind == "cont" else 1e-9

    def step(objs, a, hist):
        (m,) = objs
        if a[0] == "empty":
            m.empty_all_traps()
            rec.label("emptied the traps")
            if H.trapped(m) != 0:
                rec.violation("emptied traps hold %.12g" % H.trapped(m), history=hist, kind=kind, species=case["species"])
            return True
        before = H.trapped(m)
        net = float(
            m.n_electrons_released_and_captured(
                n_free_electrons=a[0], ccd_filling_function=fill, dwell_time=a[1]
            )
        )
        after = H.trapped(m)
        tol = slack * max(1.0, cap, a[0])
        bad = None
        if not abs(net - (before - after)) <= tol:
            bad = "reported net %.12g, but the traps went from %.12g to %.12g" % (net, before, after)
        elif not net >= -a[0] - tol:
            bad = "captured %.12g from a cloud of %.12g" % (-net, a[0])
        elif not -tol <= after <= cap + tol:
            bad = "the traps hold %.12g of at most %.12g" % (after, cap)
        elif len(dens) > 1:
            for i, x in enumerate(H.trapped_each(m)):
                if not -tol <= x <= dens[i] + tol:
                    bad = "species %d holds %.12g of at most %.12g" % (i, x, dens[i])
        rec.evals += 1
        if after > 0:
            rec.seen(kind, tuple(map(tuple, case["species"])), case["well"], H.freeze(m.watermarks))
        rec.label(
            "emptied the cloud" if net < 0 and a[0] + net <= tol else "captured" if net < 0
            else "released" if net > 0 else "nothing moved"
        )
        if bad:
            rec.violation(bad, history=hist, kind=kind, species=case["species"], well=WELLS[case["well"]])
            return False
        return True

    H.explore_after([tm], case.get("start", [case["first"]]), case["actions"], case["depth"], step, rec)
    a = case["first"]
    rec.sample(kind=kind, species=case["species"], well=case["well"], history=[a] + case["actions"][: case["depth"] - 1])
