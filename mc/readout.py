"""Reference model of the readout of one image: which cloud meets which traps, when.

Written from the documented behaviour.  The trap physics is a plug-in: either the
independent model of mc/model.py or the implementation's own trap managers (so that a
check of the clocking does not also judge the physics).
"""
import math
from fractions import Fraction

from mc import model

# --------------------------------------------------------------------------------------
# Clock sequence, from geometry
# --------------------------------------------------------------------------------------
_CLOCK = {}


def clock(n_phases, n_steps, force):
    """[step][phase] -> (is_high, capture pixel, ((release pixel, fraction), ...)).

    Lengths are in phases, measured away from the readout register: the traps of phase k
    of pixel p are at p * n_phases - k and, at position s of the sequence, the cloud that
    began in pixel q is at q * n_phases - s.
    """
    key = (n_phases, n_steps, force)
    if key in _CLOCK:
        return _CLOCK[key]
    seq = []
    for step in range(n_steps):
        s = step % (2 * n_phases)
        if s > n_phases:
            s = 2 * n_phases - s
        high = s % n_phases
        phases = []
        for k in range(n_phases):
            gap = {d: abs(d * n_phases - (s - k)) for d in range(-2, 4)}
            best = min(gap.values())
            near = sorted(d for d, g in gap.items() if g == best)
            if force and k > high:
                near = [d + 1 for d in near]
            phases.append(
                (k == high, near[0], tuple((d, 1.0 / len(near)) for d in near))
            )
        seq.append(phases)
    _CLOCK[key] = seq
    return seq


# --------------------------------------------------------------------------------------
# Which transfers each pass stands for
# --------------------------------------------------------------------------------------
def window_overlap(lo, hi, time_window):
    if time_window is None:
        return hi - lo
    t0, t1 = time_window[0], time_window[-1] + 1
    return max(Fraction(0), min(hi, t1) - max(lo, t0))


def imaging_passes(rows, express, offset, first, dtype):
    """Full list of passes, each {distance from readout (incl. offset): multiplier}."""
    n = max(rows) + 1
    full = n + offset
    e_tot = full if express == 0 else min(express, full)
    separate = first and e_tot < n
    length = full - 1 if separate else full
    m = Fraction(length, e_tot)
    if dtype == "int":
        m = Fraction(math.ceil(m))
    passes = []
    for e in range(e_tot):
        row = {}
        for r in range(length):
            x = min(max(Fraction(r + 1) - e * m, Fraction(0)), m)
            if x > 0:
                row[r] = x
        passes.append(row)
    if not separate:
        return passes
    # The first transfer of each pixel is done on its own; each of the passes above is
    # appended to that of the last pixel which it does not reach.
    out = [{full - 1 - i: Fraction(1)} for i in range(full)]
    for row in passes:
        target = out[len(row)]
        for r, x in row.items():
            target[r + 1] = target.get(r + 1, Fraction(0)) + x
    return out


def injection_passes(rows, n_transfers, express, dtype):
    e_tot = n_transfers if express == 0 else min(express, n_transfers)
    m = Fraction(n_transfers, e_tot)
    ms = [m] * e_tot
    if dtype == "int":
        m = math.ceil(m)
        left = n_transfers
        for e in reversed(range(e_tot)):
            ms[e] = Fraction(min(m, left))
            left -= ms[e]
    n = max(rows) + 1
    return [{r: x for r in range(n) if x > 0} for x in ms]


def pump_multipliers(n_pumps, express, first, dtype):
    e_tot = n_pumps if express == 0 else min(express, n_pumps)
    if first and n_pumps > 1 and e_tot < n_pumps:
        ms = [Fraction(1)] + [Fraction(n_pumps - 1, e_tot)] * e_tot
    else:
        ms = [Fraction(n_pumps, e_tot)] * e_tot
    if dtype == "int":
        tot, out, prev = Fraction(0), [], 0
        for x in ms:
            tot += x
            r = round(float(tot))
            out.append(Fraction(r - prev))
            prev = r
        ms = out
    return ms


# --------------------------------------------------------------------------------------
# Traps
# --------------------------------------------------------------------------------------
class ModelTraps:
    """The traps of one pixel: [phase][group] profiles of the reference model."""

    def __init__(self, ccd, groups):
        """groups: [[model.Species, ...], ...] with whole-pixel densities."""
        self.frac = ccd["frac"]
        self.fill = [
            (
                lambda n, f=ccd["full"][k], d=ccd["notch"][k], b=ccd["power"][k]:
                model.filling(n, f, d, b)
            )
            for k in range(len(self.frac))
        ]
        self.groups = [[model.Group(g, f) for g in groups] for f in self.frac]
        self.flags = {}
        self.empty()
        self.transitions = 0
        self.visited = set()

    def empty(self):
        self.state = [[[] for _ in g] for g in self.groups]

    def get(self):
        return [list(p) for p in self.state]

    def put(self, state):
        self.state = [list(p) for p in state]

    def _run(self, k, n_free, dwell, start, sequential):
        net, new = 0.0, []
        for g, prof in zip(self.groups[k], start):
            x, prof, flags = g.step(
                prof, n_free + (min(net, 0.0) if sequential else 0.0), dwell, self.fill[k]
            )
            net += x
            new.append(prof)
            for f in flags:
                self.flags[f] = self.flags.get(f, 0) + 1
        return net, new

    def step(self, k, n_free, dwell):
        self.transitions += 1
        start = self.state[k]
        net, new = self._run(k, n_free, dwell, start, False)
        if len(start) > 1 and n_free + net < 0:
            net, new = self._run(k, n_free, dwell, start, True)
            self.flags["shared-shortage"] = self.flags.get("shared-shortage", 0) + 1
        self.state[k] = new
        self.visited.add(
            (k, tuple(tuple((round(h, 9), tuple(round(x, 9) for x in f)) for h, f in p) for p in new))
        )
        return net


class RealTraps:
    """The same, with the implementation's trap managers doing the physics."""

    def __init__(self, ac, ccd_object, groups, transfers=0):
        """groups: [[trap objects], ...]"""
        import numpy as np

        self.ccd = ccd_object
        managers = ac.trap_managers.AllTrapManager(
            traps=groups, max_n_transfers=max(120, transfers), ccd=ccd_object
        )
        self.managers = [list(m) for m in managers]
        self.fill = [ccd_object.well_filling_function(phase=k) for k in range(ccd_object.n_phases)]
        self.blank = [[np.zeros_like(m.watermarks) for m in g] for g in self.managers]
        self.flags = {}
        self.transitions = 0
        self.visited = set()
        self.empty()

    def empty(self):
        self.put(self.blank)

    def get(self):
        return [[m.watermarks.copy() for m in g] for g in self.managers]

    def put(self, state):
        for g, ws in zip(self.managers, state):
            for m, w in zip(g, ws):
                m.watermarks = w.copy()

    def step(self, k, n_free, dwell):
        self.transitions += 1
        group = self.managers[k]
        start = [m.watermarks.copy() for m in group]
        net = 0.0
        for m in group:
            net += m.n_electrons_released_and_captured(
                n_free_electrons=n_free, dwell_time=dwell, ccd_filling_function=self.fill[k]
            )
        if len(group) > 1 and n_free + net < 0:
            net = 0.0
            for m, w in zip(group, start):
                m.watermarks = w
                net += m.n_electrons_released_and_captured(
                    n_free_electrons=n_free + min(net, 0.0), dwell_time=dwell,
                    ccd_filling_function=self.fill[k],
                )
        self.visited.add((k,) + tuple(hash(m.watermarks[:64].tobytes()) for m in group))
        return net


# --------------------------------------------------------------------------------------
# Readout
# --------------------------------------------------------------------------------------
def read_out(image, roe, traps, express=0, offset=0, rows=None, columns=None, time_window=None):
    """Return the image (list of rows) after one direction of clocking.

    roe: dict(kind='image'|'ci'|'pump', dwell=[..], first, between, force, dtype, n)
    """
    n_rows, n_cols = len(image), len(image[0])
    rows = list(range(n_rows)) if rows is None else list(rows)
    columns = list(range(n_cols)) if columns is None else list(columns)
    out = [list(map(float, r)) for r in image]
    dwell = roe["dwell"]
    kind = roe["kind"]
    n_phases = len(traps.frac) if hasattr(traps, "frac") else traps.ccd.n_phases
    frac = traps.frac if hasattr(traps, "frac") else traps.ccd.fraction_of_traps_per_phase
    force = roe.get("force", True) and kind != "pump"
    seq = clock(n_phases, len(dwell), force)
    steps = [s for s in range(len(dwell)) if dwell[s] > 0]
    phases = [k for k in range(n_phases) if frac[k] > 0]
    first = roe.get("first", True)
    dtype = roe.get("dtype", "float")
    pad = 3

    def visit(col, row, mult):
        for s in steps:
            for k in phases:
                high, cap, rel = seq[s][k]
                n_free = col[pad + row + cap] if high else 0.0
                net = traps.step(k, n_free, dwell[s])
                if mult == 0:
                    continue
                for d, f in rel:
                    i = pad + row + d
                    col[i] = max(0.0, col[i] + net * f * mult)

    traps.empty()
    saved = traps.get()
    for c in columns:
        col = [0.0] * pad + [out[r][c] for r in range(n_rows)] + [0.0] * pad
        if kind == "pump":
            ms = pump_multipliers(roe["n"], express, first, dtype)
            for row in rows:
                traps.empty()
                for m in ms:
                    if m > 0:
                        visit(col, row, float(m))
            traps.empty()
        else:
            if kind == "image":
                passes = imaging_passes(rows, express, offset, first, dtype)
            else:
                n = roe.get("n")
                passes = injection_passes(rows, n_rows + offset if n is None else n, express, dtype)
            skip = offset if kind == "image" else 0
            done = {}
            plan = []  # (row, multiplier) of each pass
            for p in passes:
                this = []
                for x in sorted(p):
                    lo = done.get(x, Fraction(0))
                    done[x] = lo + p[x]
                    if x - skip in rows:
                        this.append((x - skip, float(window_overlap(lo, done[x], time_window))))
                plan.append(this)
            for e, this in enumerate(plan):
                if not this:
                    continue
                traps.put(saved)
                save_after = None
                if kind == "image" and not first and e + 1 < len(plan) and plan[e + 1]:
                    nxt = plan[e + 1][0][0]
                    if nxt > rows[0]:
                        save_after = nxt - 1
                for row, m in this:
                    visit(col, row, m)
                    if row == save_after:
                        saved = traps.get()
            if roe.get("between", True):
                traps.empty()
            saved = traps.get()
        for r in range(n_rows):
            out[r][c] = col[pad + r]
    return out
