"""Reference model of volume-driven CTI, written from the documentation, not the code.

A pixel's (phase's) trap occupancy is a function on the fractional volume [0, 1]:
piecewise constant, one value per species on each piece.  A profile is a list of
(upper edge, (value of each species, ...)); beyond the last edge every trap is empty.
"""
import math

INF = float("inf")
MERGE = 1e-13  # edges closer than this are one edge


def filling(n, full, notch, power):
    """Fraction of the volume filled by n electrons."""
    if n <= notch or n == 0:
        return 0.0
    if n >= full:
        return 1.0
    return ((n - notch) / (full - notch)) ** power


class Species:
    """One trap species. kind: 'instant', 'slow' (finite or zero capture time)."""

    def __init__(self, density, tau_r, tau_c=0.0, kind="instant"):
        self.density, self.tau_r, self.tau_c, self.kind = density, tau_r, tau_c, kind

    def survive(self, dw):
        return math.exp(-dw / self.tau_r)

    def from_empty(self, dw):
        if self.kind == "instant" or self.tau_c == 0:
            return 1.0
        c, e = 1.0 / self.tau_c, 1.0 / self.tau_r
        return c / (c + e) * -math.expm1(-(c + e) * dw)

    def from_full(self, dw):
        if self.kind == "instant" or self.tau_c == 0:
            return 1.0
        c, e = 1.0 / self.tau_c, 1.0 / self.tau_r
        return 1.0 - e / (c + e) * -math.expm1(-(c + e) * dw)


def split(profile, volume, n_species):
    """Return (profile below volume, profile above), both as piece lists."""
    below, above, lo = [], [], 0.0
    for hi, f in profile:
        if hi <= volume + MERGE:
            below.append((hi, f))
        elif lo >= volume - MERGE:
            above.append((hi, f))
        else:
            below.append((volume, f))
            above.append((hi, f))
        lo = hi
    if volume > lo + MERGE:
        below.append((volume, (0.0,) * n_species))
    return below, above


def total(profile, densities):
    s, lo = 0.0, 0.0
    for hi, f in profile:
        w = hi - lo
        for d, x in zip(densities, f):
            s += w * d * x
        lo = hi
    return s


class Group:
    """Species that share one occupancy profile (a trap manager)."""

    def __init__(self, species, scale=1.0):
        self.species = list(species)
        self.n = len(self.species)
        self.densities = [s.density * scale for s in self.species]
        self.kind = self.species[0].kind

    def trapped(self, profile):
        return total(profile, self.densities)

    def step(self, profile, n_free, dwell, fill):
        """One passage. Return (net electrons released, new profile, flags).

        flags: a set naming what happened, for coverage.
        """
        if self.kind == "instant":
            return self._instant(profile, n_free, dwell, fill)
        return self._slow(profile, n_free, dwell, fill)

    def _instant(self, profile, n_free, dwell, fill):
        flags = set()
        keep = [s.survive(dwell) for s in self.species]
        before = self.trapped(profile)
        rel = [(hi, tuple(x * k for x, k in zip(f, keep))) for hi, f in profile]
        mid = self.trapped(rel)
        n = n_free + (before - mid)
        v = fill(n)
        if v <= 0:
            flags.add("release" if before > 0 else "idle")
            return before - mid, rel, flags
        below, above = split(rel, v, self.n)
        flags.add("below" if above else ("first" if not profile else "above"))
        want = 0.0
        lo = 0.0
        for hi, f in below:
            for d, x in zip(self.densities, f):
                want += (hi - lo) * d * (1.0 - x)
            lo = hi
        if want > n:
            e = n / want
            flags.add("short")
            if len(below) > 1:
                flags.add("short-multi")
            new = [(hi, tuple(e + (1 - e) * x for x in f)) for hi, f in below]
        else:
            new = [(v, (1.0,) * self.n)]
        after = new + above
        return before - self.trapped(after), after, flags

    def _slow(self, profile, n_free, dwell, fill):
        flags = set()
        keep = [s.survive(dwell) for s in self.species]
        emp = [s.from_empty(dwell) for s in self.species]
        ful = [s.from_full(dwell) for s in self.species]
        before = self.trapped(profile)
        top = profile[-1][0] if profile else 0.0
        v = fill(n_free)
        below, above = split(profile, v, self.n) if v > 0 else ([], list(profile))
        orig = below + above
        if above:
            # traps above the cloud release into it, which may make it larger
            state = below + [
                (hi, tuple(x * k for x, k in zip(f, keep))) for hi, f in above
            ]
            v = fill(n_free + before - self.trapped(state))
            if v > top + MERGE:
                flags.add("overtop")
        else:
            state = orig
        if v <= 0:
            flags.add("release" if before > 0 else "idle")
            return before - self.trapped(state), state, flags
        s_below, s_above = split(state, v, self.n)
        o_below, o_above = split(orig, v, self.n)
        flags.add("below" if above else ("above" if profile else "first"))
        new = [
            (hi, tuple(x * p1 + (1 - x) * p0 for x, p0, p1 in zip(f, emp, ful)))
            for hi, f in s_below
        ]
        net = before - self.trapped(new + s_above)
        if n_free + net < 0:
            # more captured than there is: keep only the part that can be paid for
            e = n_free / (-net)
            flags.add("short")
            if len(o_below) > 1:
                flags.add("short-multi")
            after = [
                (hi, tuple(e * a + (1 - e) * b for a, b in zip(fa, fb)))
                for (hi, fa), (_, fb) in zip(new + s_above, o_below + o_above)
            ]
        else:
            after = new + s_above
        return before - self.trapped(after), after, flags
