"""Every history of clouds against the volume-element-by-volume-element reference model."""
from mc import histories as H, model
from mc.checks import c01

LEVEL = "model_checking"
RULE = (
    "State: the real trap manager and the reference model's occupancy profile. Transition: one "
    "passage of a cloud (size x dwell time), or emptying the traps, run on both; the net electrons released and the "
    "total then held must agree. Identical states are merged. Distinct: (kinds of step met: below / "
    "above / overtopping / first / short, number of levels, state hash)."
)
BOUNDS = {
    "quick": "all histories of 4 passages over 14 (cloud, dwell) actions and emptying, per configuration, and of 3 with dwell times from 1e-6 to 50, or with lifetimes from 2e-7 to 3e4; and, after 3 longer histories each "
    "that leave 5 levels behind (emptied or not), all that go on for 3 more; and 2 more after 3 that leave 40 levels",
    "thorough": "all histories of 5 passages over 18 actions, per configuration; and 4 more after the longer histories",
}
WELLS = c01.WELLS
FIVE = [[30.0, 0.7], [200.0, 2.0], [90.0, 20.0], [150.0, 0.2], [70.0, 5.0]]
FIVE_SLOW = [[30.0, 0.7, 0.1], [200.0, 2.0, 0.3], [90.0, 20.0, 0.0], [150.0, 0.2, 1.0], [70.0, 5.0, 0.4]]
# capture that is nearly, not quite, at once
FAST = [[300.0, 500.0, 0.02], [40.0, 3.0, 0.06]]
SPECIES = {
    "instant": [
        [[8.0, 1.5]], [[600.0, 1.5]], [[600.0, 1.5], [400.0, 5.0]],
        [[60.0, 0.7], [0.0, 2.0], [90.0, 20.0]], FIVE,
    ],
    "slow": [
        [[8.0, 1.5, 0.3]], [[600.0, 1.5, 0.3]], [[600.0, 1.5, 0.3], [400.0, 5.0, 0.05]],
        [[70.0, 2.0, 0.0], [30.0, 0.5, 4.0]], FIVE_SLOW,
        [[70.0, 2.0, 0.0], [90.0, 7.0, 0.0], [50.0, 0.5, 1.0], [40.0, 1.0, 0.2]],
        FAST,
    ],
}
CLOUDS = {
    "notch": [0.0, 5.5, 8.0, 60.0, 400.0, 1000.0, 1500.0, 4.0, 150.0],
    "plain": [0.0, 0.01, 2.0, 30.0, 250.0, 600.0, 1200.0, 999.0, 90.0],
    "deep": [0.0, 1e-6, 1.0, 9.0, 80.0, 500.0, 5000.0, 1000.0, 200.0],
}
DWELLS = [0.4, 3.0]
# lifetimes far from 1
EXTREME = {
    "instant": [[[60.0, 1e-4], [400.0, 3e4]], [[90.0, 2e-7]]],
    "slow": [[[60.0, 1e-4, 2e-5], [400.0, 3e4, 2.0]], [[90.0, 2e-7, 5e-7]], [[90.0, 5e3, 4e2], [70.0, 1e-3, 0.0]]],
}


def cases(tier):
    deep = tier == "thorough"
    for kind in ("instant", "slow"):
        for species in SPECIES[kind]:
            for w in ("notch", "plain", "deep"):
                if (len(species) > 3 or species is FAST) and w != "plain" and not deep:
                    continue
                clouds = CLOUDS[w] if deep else CLOUDS[w][:7]
                acts = [[n, d] for n in clouds for d in DWELLS]
                acts.append(["empty"])
                # much shorter and much longer than any lifetime
                for n in clouds[2:6]:
                    yield dict(
                        kind=kind, species=species, well=w, first=[n, 0.01],
                        actions=[[x, d] for x in clouds[::2] for d in (1e-6, 0.01, 50.0)] + [["empty"]], depth=4 if deep else 3,
                    )
                for first in acts[:-1]:
                    yield dict(
                        kind=kind, species=species, well=w, first=first, actions=acts,
                        depth=5 if deep else 4,
                    )
                for start in c01.starts(CLOUDS[w][:7]):
                    yield dict(
                        kind=kind, species=species, well=w, start=start, first=start[0], actions=acts,
                        depth=len(start) + (4 if deep else 3),
                    )
                for start in c01.many(kind):
                    yield dict(
                        kind=kind, species=species, well=w, start=start, first=start[0], actions=acts,
                        depth=len(start) + (3 if deep else 2), n=60,
                    )
        for species in EXTREME[kind]:
            for first in CLOUDS["plain"][2:6]:
                for dwell in (1e-6, 1e-4, 30.0):
                    yield dict(
                        kind=kind, species=species, well="plain", first=[first, dwell],
                        actions=[[x, d] for x in CLOUDS["plain"][:7:2] for d in (1e-7, 1e-4, 0.5, 2e4)] + [["empty"]], depth=4 if deep else 3,
                    )


class Pair:
    """The real manager next to the model's profile; copied and hashed together."""

    def __init__(self, manager, profile):
        self.manager, self.profile = manager, profile


def run_case(case, rec):
    kind, species = case["kind"], case["species"]
    spec = WELLS[case["well"]]
    fill = H.well(spec)
    group = H.model_group(kind, species)
    cap = sum(s[0] for s in species)

    def mfill(n):
        return model.filling(n, spec["full"], spec["notch"], spec["power"])

    def step(objs, a, hist):
        (p,) = objs
        if a[0] == "empty":
            p.manager.empty_all_traps()
            p.profile = []
            rec.label("emptied")
            return True
        n_free, dwell = a
        want, profile, flags = group.step(p.profile, n_free, dwell, mfill)
        held = group.trapped(profile)
        net = float(
            p.manager.n_electrons_released_and_captured(
                n_free_electrons=n_free, ccd_filling_function=fill, dwell_time=dwell
            )
        )
        now = H.trapped(p.manager)
        p.profile = profile
        rec.evals += 1
        for f in flags:
            rec.label(f)
        if held > 0:
            rec.seen(kind, sorted(flags), len(profile), H.freeze(p.manager.watermarks))
        tol = 1e-9 * max(1.0, cap, n_free)
        if not (abs(net - want) <= tol and abs(now - held) <= tol):
            rec.violation(
                "released %.12g where the rate law gives %.12g; traps hold %.12g, expected %.12g"
                % (net, want, now, held),
                history=hist, kind=kind, species=species, well=spec, step=sorted(flags),
            )
            return False
        return True

    root = [Pair(H.manager(kind, species, case.get("n", 8)), [])]
    H.explore_after(root, case.get("start", [case["first"]]), case["actions"], case["depth"], step, rec)
    a = case["first"]
    rec.sample(kind=kind, species=species, well=spec, history=[a] + case["actions"][: case["depth"] - 1])
