"""Tracking the time since capture against tracking the filled fraction."""
from mc import histories as H
from mc.checks import c01

LEVEL = "model_checking"
RULE = (
    "State: two real trap managers for the same exponential species, one that tracks the filled "
    "fraction and one that tracks the time elapsed. Transition: one passage of a cloud, or emptying the traps, run on both; "
    "net electrons released and electrons held must agree. Identical states are merged."
)
BOUNDS = {
    "quick": "all histories of 4 passages over 16 (cloud, dwell) actions and emptying, per configuration; and, after 3 longer histories each "
    "that leave 5 levels behind (emptied or not), all that go on for 3 more; and 2 more after 3 that leave 40 levels",
    "thorough": "all histories of 5 passages over 16 actions, per configuration; and 4 more after the longer histories",
}
SPECIES = [
    [[8.0, 1.5]], [[600.0, 1.5]], [[600.0, 1.5], [400.0, 5.0]], [[60.0, 0.7], [0.0, 2.0], [900.0, 20.0]],
    [[30.0, 0.7], [200.0, 2.0], [90.0, 20.0], [150.0, 0.2], [70.0, 5.0]],
]


def cases(tier):
    for species in SPECIES:
        for w in ("notch", "plain", "deep"):
            if len(species) > 3 and w != "plain" and tier != "thorough":
                continue
            acts = [[n, d] for n in c01.CLOUDS[w] for d in c01.DWELLS]
            acts.append(["empty"])
            for first in acts[:-1]:
                yield dict(species=species, well=w, first=first, actions=acts, depth=5 if tier == "thorough" else 4)
            for start in c01.starts(c01.CLOUDS[w]):
                yield dict(
                    species=species, well=w, start=start, first=start[0], actions=acts,
                    depth=len(start) + (4 if tier == "thorough" else 3),
                )
            for start in c01.many("time"):
                yield dict(
                    species=species, well=w, start=start, first=start[0], actions=acts,
                    depth=len(start) + (3 if tier == "thorough" else 2), n=60,
                )


def run_case(case, rec):
    species = case["species"]
    spec = c01.WELLS[case["well"]]
    fill = H.well(spec)
    cap = sum(s[0] for s in species)

    def step(objs, a, hist):
        if a[0] == "empty":
            for m in objs:
                m.empty_all_traps()
            rec.label("emptied")
            return True
        nets = [
            float(m.n_electrons_released_and_captured(
                n_free_electrons=a[0], ccd_filling_function=fill, dwell_time=a[1]))
            for m in objs
        ]
        held = [H.trapped(m) for m in objs]
        rec.evals += 1
        tol = 1e-9 * max(1.0, cap, a[0])
        rec.label("short" if a[0] + nets[0] <= tol and nets[0] < 0 else "enough" if nets[0] < 0 else "released")
        if held[0] > 0:
            rec.seen(H.freeze(objs[0].watermarks))
        if not (abs(nets[0] - nets[1]) <= tol and abs(held[0] - held[1]) <= tol):
            rec.violation(
                "fill fractions release %.12g, elapsed times %.12g; held %.12g and %.12g"
                % (nets[0], nets[1], held[0], held[1]),
                history=hist, species=species, well=spec,
            )
            return False
        return True

    root = [H.manager(k, species, case.get("n", 8)) for k in ("instant", "time")]
    H.explore_after(root, case.get("start", [case["first"]]), case["actions"], case["depth"], step, rec)
    a = case["first"]
    rec.sample(species=species, well=spec, history=[a] + case["actions"][: case["depth"] - 1])
