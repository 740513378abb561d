"""The HST ACS preset against its published time dependence, date by date."""
import math

import numpy as np

from mc import images as I, readout, world

LEVEL = "exploration"
RULE = (
    "Every Julian date of the grid (which contains both sides of each change, to the neighbouring float), asked for "
    "as a float, an integer or a numpy number: densities, release times, CCD and readout against the "
    "published values; on every column over the alphabet add_cti with the preset against the reference readout "
    "with those values, and remove_cti against the iteration. Distinct: (date, densities, release times)."
)
BOUNDS = {
    "quick": "every whole day of 30 years from launch, 40 dates around each change, 400 dates before launch; images for 24 dates: all columns of 3 pixels over 4 values",
    "thorough": "every tenth of a day of 30 years; images for 120 dates, 4 pixels",
}
LAUNCH, COOLED, REPAIRED = 2452334.5, 2453920.0, 2454968.0
BOLTZMANN = 8.617343e-5


def published(date):
    """densities, release times (in transfers)."""
    if date < REPAIRED:
        total = 0.017845 + 3.5488e-4 * (date - LAUNCH)
    else:
        total = 1.011 * (-0.246591 + 0.000558980 * (date - LAUNCH))
    share = [1.27, 3.38, 2.85]
    densities = [total * s / 7.5 for s in share]
    cold = 273.15 - 81
    temperature = 273.15 - (77 if date < COOLED else 81)
    times = [
        t * temperature / cold * math.exp(gap / BOLTZMANN * (1 / cold - 1 / temperature))
        for t, gap in zip([0.74, 7.7, 37.0], [0.31, 0.34, 0.44])
    ]
    return densities, times


def near(x):
    out, a, b = [x], x, x
    for _ in range(5):
        a, b = math.nextafter(a, -math.inf), math.nextafter(b, math.inf)
        out += [a, b]
    for d in (1e-6, 1e-3, 0.01, 0.1, 0.25, 0.5, 0.75, 1.0, 2.0, 3.5, 10.0, 30.0, 100.0, 365.0):
        out += [x - d, x + d]
    return out


def cases(tier):
    deep = tier == "thorough"
    for year in range(30):
        yield dict(part="dates", start=LAUNCH + 365 * year, count=365, step=1.0)
        yield dict(part="dates", start=math.ceil(LAUNCH) + 365 * year, count=365, step=1.0, whole=True)
        if deep:
            yield dict(part="dates", start=LAUNCH + 365 * year, count=3650, step=0.1)
    for x in (LAUNCH, COOLED, REPAIRED):
        yield dict(part="near", at=x)
    yield dict(part="early")
    n = 120 if deep else 24
    for i in range(n):
        yield dict(part="image", date=LAUNCH + i * (20 * 365.25 / n), rows=4 if deep else 3)
    for d in (COOLED - 0.5, COOLED, REPAIRED - 0.5, REPAIRED):
        yield dict(part="image", date=d, rows=3)


def check(rec, date, ask=None):
    ac = world.ac
    traps, ccd, roe = ac.model_for_HST_ACS(date if ask is None else ask)
    densities, times = published(float(date))
    rec.evals += 1
    rec.seen(date)
    what = dict(date=date)
    if len(traps) != 3 or any(type(t) is not ac.TrapInstantCapture for t in traps):
        rec.violation("not three instant-capture species: %s" % [type(t).__name__ for t in traps], **what)
        return False
    for i, t in enumerate(traps):
        if not abs(t.density - densities[i]) <= 1e-9 * abs(densities[i]) + 1e-12:
            rec.violation("density of species %d is %.12g, published %.12g" % (i, t.density, densities[i]), **what)
            return False
        if not abs(t.release_timescale - times[i]) <= 1e-9 * times[i]:
            rec.violation("release time of species %d is %.12g, published %.12g" % (i, t.release_timescale, times[i]), **what)
            return False
        if not abs(t.emission_rate * t.release_timescale - 1) < 1e-12 or t.capture_timescale != 0 or t.surface:
            rec.violation("species %d is not an ordinary instant-capture one" % i, **what)
            return False
    ok = (
        ccd.n_phases == 1 and ccd.full_well_depth == [84700] and ccd.well_fill_power == [0.478]
        and ccd.well_notch_depth == [0] and len(ccd.fraction_of_traps_per_phase) == 1
        and ccd.fraction_of_traps_per_phase[0] == 1
        and list(roe.dwell_times) == [1] and type(roe) is ac.ROE and roe.empty_traps_for_first_transfers
        and roe.empty_traps_between_columns
    )
    if not ok:
        rec.violation("CCD or readout", ccd=vars(ccd), roe={k: str(v)[:80] for k, v in vars(roe).items()}, **what)
    return ok


def run_case(case, rec):
    ac = world.ac
    part = case["part"]
    if part == "dates":
        for i in range(case["count"]):
            d = case["start"] + i * case["step"]
            if not check(rec, d, int(d) if case.get("whole") else np.float64(d) if i % 2 else None):
                return
        rec.sample(date=d, published=published(d))
    elif part == "near":
        for d in near(case["at"]):
            if d >= LAUNCH:
                check(rec, d)
    elif part == "early":
        for d in [x for x in near(LAUNCH) if x < LAUNCH] + [0, 1.0, -5.0, 2400000.5] + [LAUNCH - 3 ** k for k in range(14)] + list(
            range(int(LAUNCH) - 370, int(LAUNCH) + 1)
        ):
            rec.evals += 1
            try:
                ac.model_for_HST_ACS(d)
            except Exception:
                continue
            rec.violation("a date before launch was accepted", date=d)
            return
    else:
        date = case["date"]
        traps, ccd, roe = ac.model_for_HST_ACS(date)
        image = world.all_columns([0.0, 50.0, 1500.0, 60000.0], case["rows"])
        densities, times = published(date)
        groups = [[["instant", d, t] for d, t in zip(densities, times)]]
        spec = {"frac": [1.0], "full": 84700.0, "notch": 0.0, "power": 0.478}
        for express in (0, 1):
            got = ac.add_cti(image, parallel_ccd=ccd, parallel_roe=roe, parallel_traps=traps, parallel_express=express)
            want = readout.read_out(
                image.tolist(), dict(kind="image", dwell=[1.0]), world.model_traps(spec, groups), express=express
            )
            rec.evals += image.shape[1]
            rec.seen_arrays(got)
            if not world.close(got, want):
                rec.violation("add_cti with the preset: " + world.worst(got, want), date=date, express=express)
            back = ac.remove_cti(
                got, iterations=3, parallel_ccd=ccd, parallel_roe=roe, parallel_traps=traps, parallel_express=express
            )
            if np.abs(back - image).max() > 0.2 * np.abs(got - image).max() + 1e-9:
                rec.violation(
                    "remove_cti with the preset leaves %g of %g" % (np.abs(back - image).max(), np.abs(got - image).max()),
                    date=date, express=express,
                )
        # what is done to one preset does not show in the next
        for t in traps:
            t.density = 1e6
        ccd.full_well_depth = 1.0
        roe.dwell_times = [5.0]
        check(rec, date)
        rec.sample(date=date, column=image[:, -1].tolist(), output=got[:, -1].tolist())
