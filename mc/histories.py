"""Exhaustive exploration of histories of charge clouds passing over the traps of a pixel."""
import hashlib
from copy import deepcopy

import numpy as np

from mc import model, world


def freeze(x, h=None, depth=0, met=None):
    """Hash of everything reachable from x: contents, and which parts are shared."""
    top = h is None
    if top:
        h = hashlib.blake2b(digest_size=16)
        met = {}
    if isinstance(x, (int, float, str, bool, bytes, type(None), np.generic)):
        h.update(repr(x).encode())
        return h.digest() if top else None
    if not isinstance(x, tuple):
        if id(x) in met:
            h.update(b"#%d" % met[id(x)])
            return h.digest() if top else None
        met[id(x)] = len(met)
    if isinstance(x, np.ndarray):
        h.update(str((x.shape, x.dtype.str)).encode())
        h.update(x.tobytes() if x.dtype != object else repr(x).encode())
    elif isinstance(x, (list, tuple)):
        h.update(b"[")
        for y in x:
            freeze(y, h, depth + 1, met)
            h.update(b",")
        h.update(b"]")
    elif isinstance(x, dict):
        for k in sorted(x, key=repr):
            h.update(repr(k).encode() + b":")
            freeze(x[k], h, depth + 1, met)
    elif callable(x) and not isinstance(x, type):
        h.update(getattr(x, "__qualname__", "").encode())
    elif hasattr(x, "__dict__") and depth < 12:
        h.update(type(x).__qualname__.encode())
        freeze(x.__dict__, h, depth + 1, met)
    return h.digest() if top else None


def manager(kind, species, n=8):
    """kind: instant | time | slow | cont. species: [density, tau_r(, tau_c | sigma)]"""
    ac = world.ac
    tm = ac.trap_managers
    if kind == "instant":
        return tm.TrapManagerInstantCapture(
            traps=[ac.TrapInstantCapture(density=d, release_timescale=t) for d, t in species],
            max_n_transfers=n,
        )
    if kind == "time":
        return tm.TrapManagerTrackTime(
            traps=[ac.TrapInstantCapture(density=d, release_timescale=t) for d, t in species],
            max_n_transfers=n,
        )
    if kind == "cont":
        return tm.TrapManagerTrackTime(
            traps=[
                ac.TrapLogNormalLifetimeContinuum(
                    density=d, release_timescale_mu=t, release_timescale_sigma=s
                )
                for d, t, s in species
            ],
            max_n_transfers=n,
        )
    return tm.TrapManager(
        traps=[
            ac.Trap(density=d, release_timescale=t, capture_timescale=c) for d, t, c in species
        ],
        max_n_transfers=n,
    )


def model_group(kind, species):
    if kind == "slow":
        return model.Group([model.Species(d, t, c, "slow") for d, t, c in species])
    return model.Group([model.Species(d, t) for d, t in species])


def trapped(m):
    return float(m.n_trapped_electrons_from_watermarks(m.watermarks))


def trapped_each(m):
    """Electrons held by each species, through the public density setter."""
    d = np.array(m.n_traps_per_pixel, dtype=float)
    out = []
    for i in range(len(d)):
        only = np.zeros(len(d))
        only[i] = d[i]
        m.n_traps_per_pixel = only
        out.append(trapped(m))
    m.n_traps_per_pixel = d
    return out


def well(spec):
    ccd = world.ccd(spec)
    return ccd.well_filling_function(0)


def explore(root, actions, depth, step, rec):
    return explore_from(root, (), actions, depth, step, rec)


def explore_after(root, start, actions, depth, step, rec):
    """Take the steps of `start`, then explore all histories that begin with them, up to depth."""
    for i in range(len(start)):
        rec.transitions += 1
        if not step(root, start[i], tuple(start[: i + 1])):
            return
    explore_from(root, tuple(start), actions, depth - len(start), step, rec)


def explore_from(root, prefix, actions, depth, step, rec):
    """Breadth-first over all sequences of actions, merging identical states.

    root: list of objects; step(objects, action, history) -> True to go on from here.
    The objects are copied before each action, so every action runs on the real code.
    """
    frontier = [(root, tuple(prefix))]
    seen = {freeze(root)}
    rec.states += 1
    for level in range(depth):
        nxt = []
        for objs, hist in frontier:
            for a in actions:
                mine = deepcopy(objs)
                h = hist + (a,)
                rec.transitions += 1
                if not step(mine, a, h):
                    continue
                key = freeze(mine)
                if key in seen:
                    continue
                seen.add(key)
                rec.states += 1
                if level + 1 < depth:
                    nxt.append((mine, h))
        frontier = nxt
    # every history of `depth` actions ends in a state reached above
    rec.traces += len(actions) ** depth
    return len(seen)
