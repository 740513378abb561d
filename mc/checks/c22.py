"""Save, restore and empty: every sequence of them and of passages, against a shadow."""
from copy import deepcopy

from mc import histories as H, world

LEVEL = "model_checking"
RULE = (
    "State: a real AllTrapManager, together with a shadow that keeps one trap manager of its own per "
    "phase and group, and a copy of them made at each save. Transitions: a cloud passing the traps of "
    "one phase, save, restore, empty. After each, the number of electrons reported and those held by "
    "every phase and group must be the shadow's, and each passage must release the same. Identical "
    "states (contents and sharing) are merged."
)
BOUNDS = {
    "quick": "all sequences of 5 operations out of 7-11 (at most 3 phases, 3 groups), and of 2 after histories that leave 30 levels, saved or not, or that need larger records than planned",
    "thorough": "all sequences of 7 operations out of 7-11, and of 4 after histories that leave 30 levels",
}
CONFIGS = [
    dict(ccd={"frac": [1.0], "full": 1000.0, "notch": 3.0, "power": 0.7},
         groups=[[["instant", 50.0, 2.0]]], form="bare", clouds=[0.0, 40.0, 700.0, 20.0]),
    dict(ccd={"frac": [1.0], "full": 1000.0, "notch": 0.0, "power": 0.7},
         groups=[[["slow", 50.0, 2.0, 0.5], ["slow", 20.0, 9.0, 1.0]]], form="flat",
         clouds=[0.0, 40.0, 700.0, 15.0]),
    dict(ccd={"frac": [0.3, 0.7], "full": [1000.0, 600.0], "notch": 0.0, "power": [0.7, 0.5]},
         groups=[[["instant", 50.0, 2.0]], [["slow", 40.0, 3.0, 0.4]]], form="nested",
         clouds=[0.0, 40.0, 700.0]),
    dict(ccd={"frac": [0.3, 0.7], "full": 1000.0, "notch": 1.0, "power": 0.8},
         groups=[[["instant", 5.0, 2.0], ["instant", 9.0, 0.5]], [["slow", 4.0, 3.0, 0.4]], [["instant", 7.0, 30.0]]],
         form="nested", clouds=[0.0, 60.0, 800.0]),
    dict(ccd={"frac": [0.5, 0.0, 0.5], "full": 1000.0, "notch": 0.0, "power": 0.8},
         groups=[[["slow", 40.0, 3.0, 0.4]]], form="flat", clouds=[0.0, 90.0]),
]


def actions(config):
    out = []
    for p in range(len(config["ccd"]["frac"])):
        for n in config["clouds"]:
            out.append(["cloud", p, n])
    return out + [["save"], ["restore"], ["empty"]]


def cases(tier):
    for i, config in enumerate(CONFIGS):
        for first in actions(config):
            yield dict(config=config, first=first, depth=7 if tier == "thorough" else 5)
        # from traps, and from saved traps, with many levels
        for i in range(4):
            many = [["cloud", k % len(config["ccd"]["frac"]), round(1200.0 * 0.9**k, 6)] for k in range(30)]
            start = [many, many + [["save"]], many[:10] + [["save"]] + many, many + [["save"], ["empty"]] + many[::7]][i]
            yield dict(config=config, start=start, first=start[0], depth=5 if tier == "thorough" else 3)
        # records of the traps that were made for fewer passages and have to grow, before or after the save
        few = many[:2]
        for start in (few + [["save"]] + many[2:], many + [["save"]] + many[1::3], [["save"]] + many, few + [["empty"]] + many[1:],
                      few + [["save"]] + many[::-2] + [["restore"]] + many[3::2]):
            yield dict(config=config, start=start, first=start[0], depth=4 if tier == "thorough" else 3, n=2)


def shadow_new(config):
    kinds = {"instant": "instant", "slow": "slow"}
    return [
        [
            H.manager(kinds[g[0][0]], [[s[1] * f] + s[2:] for s in g], 50)
            for g in config["groups"]
        ]
        for f in config["ccd"]["frac"]
    ]


class World:
    pass


def run_case(case, rec):
    config = case["config"]
    ccd = world.ccd(config["ccd"])
    fill = [ccd.well_filling_function(p) for p in range(len(config["ccd"]["frac"]))]
    w = World()
    w.real = world.ac.trap_managers.AllTrapManager(
        traps=world.traps(config["groups"], config["form"]), max_n_transfers=case.get("n", 50), ccd=ccd
    )
    w.now = shadow_new(config)
    w.saved = None

    def step(objs, a, hist):
        (w,) = objs
        bad = None
        rec.evals += 1
        if a[0] == "cloud":
            _, p, n = a
            args = dict(n_free_electrons=n, ccd_filling_function=fill[p], dwell_time=1.0)
            for g in range(len(config["groups"])):
                x = float(w.real[p][g].n_electrons_released_and_captured(**args))
                y = float(w.now[p][g].n_electrons_released_and_captured(**args))
                if not abs(x - y) <= 1e-9 * max(1.0, n):
                    bad = "phase %d group %d released %.12g, expected %.12g" % (p, g, x, y)
        elif a[0] == "save":
            w.real.save()
            w.saved = deepcopy(w.now)
        elif a[0] == "restore":
            w.real.restore()
            w.now = shadow_new(config) if w.saved is None else deepcopy(w.saved)
        else:
            w.real.empty_all_traps()
            w.now = shadow_new(config)
        rec.label(a[0])
        held = 0.0
        for p, (rs, ss) in enumerate(zip(w.real, w.now)):
            for g, (r, s) in enumerate(zip(rs, ss)):
                x, y = H.trapped(r), H.trapped(s)
                held += y
                if not bad and not abs(x - y) <= 1e-9 * max(1.0, y):
                    bad = "after %s phase %d group %d holds %.12g, expected %.12g" % (a[0], p, g, x, y)
        x = float(w.real.n_electrons_trapped_currently)
        if not bad and not abs(x - held) <= 1e-9 * max(1.0, held):
            bad = "after %s %.12g electrons are reported trapped, expected %.12g" % (a[0], x, held)
        if held > 0:
            rec.seen(H.freeze([w.now, w.saved]))
        if bad:
            rec.violation(bad, history=hist, config=config)
            return False
        return True

    acts = actions(config)
    start = case.get("start", [case["first"]])
    depth = case["depth"] - 1 + len(start)
    H.explore_after([w], start, acts, depth, step, rec)
    rec.sample(config=config, history=[case["first"]] + acts[-4:])
