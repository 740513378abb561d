"""Build the objects of arcticpy, and of the reference model, from plain JSON descriptors.

ccd    {"frac": [..], "full": x | [..], "notch": x | [..], "power": x | [..]}
roe    {"kind": "image" | "ci" | "pump", "dwell": [..], "first", "between", "force",
        "dtype": "float" | "int", "n": transfers or pumps}
traps  [[species, ...], ...]; species = ["instant", density, tau_r]
        | ["slow", density, tau_r, tau_c] | ["cont", density, median, sigma]
"""
import numpy as np

from mc import model, readout

ac = None  # set by use()


def use(package):
    global ac
    ac = package


DEFAULT_CCD = {"frac": [1.0], "full": 1000.0, "notch": 0.0, "power": 0.8}


def per_phase(spec, name):
    x = spec[name]
    n = len(spec["frac"])
    return [float(v) for v in x] if isinstance(x, list) else [float(x)] * n


def ccd(spec):
    return ac.CCD(
        fraction_of_traps_per_phase=list(spec["frac"]),
        full_well_depth=spec["full"],
        well_notch_depth=spec["notch"],
        well_fill_power=spec["power"],
    )


def ccd_model(spec):
    return {
        "frac": list(spec["frac"]),
        "full": per_phase(spec, "full"),
        "notch": per_phase(spec, "notch"),
        "power": per_phase(spec, "power"),
    }


def roe(spec, dwell_times=None):
    dtype = int if spec.get("dtype") == "int" else float
    kind = spec["kind"]
    dwell = list(spec["dwell"]) if dwell_times is None else dwell_times
    if kind == "image":
        return ac.ROE(
            dwell_times=dwell,
            empty_traps_for_first_transfers=spec.get("first", True),
            empty_traps_between_columns=spec.get("between", True),
            force_release_away_from_readout=spec.get("force", True),
            express_matrix_dtype=dtype,
        )
    if kind == "ci":
        return ac.ROEChargeInjection(
            dwell_times=dwell,
            n_pixel_transfers=spec.get("n"),
            empty_traps_between_columns=spec.get("between", True),
            force_release_away_from_readout=spec.get("force", True),
            express_matrix_dtype=dtype,
        )
    return ac.ROETrapPumping(
        dwell_times=dwell,
        n_pumps=spec["n"],
        empty_traps_for_first_transfers=spec.get("first", True),
        express_matrix_dtype=dtype,
    )


def species(s):
    if s[0] == "instant":
        return ac.TrapInstantCapture(density=s[1], release_timescale=s[2])
    if s[0] == "slow":
        return ac.Trap(density=s[1], release_timescale=s[2], capture_timescale=s[3])
    if s[0] == "cont":
        return ac.TrapLogNormalLifetimeContinuum(
            density=s[1], release_timescale_mu=s[2], release_timescale_sigma=s[3]
        )
    raise ValueError(s)


def traps(groups, form="nested"):
    made = [[species(s) for s in g] for g in groups]
    if form == "flat":
        (made,) = made
    elif form == "bare":
        ((made,),) = made
    return made


def species_model(s):
    return model.Species(s[1], s[2], s[3] if s[0] == "slow" else 0.0, s[0])


def model_traps(ccd_spec, groups):
    return readout.ModelTraps(ccd_model(ccd_spec), [[species_model(s) for s in g] for g in groups])


def real_traps(ccd_spec, groups, transfers=0):
    return readout.RealTraps(ac, ccd(ccd_spec), traps(groups), transfers)


def close(a, b, rtol=1e-9, atol=1e-8):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


def worst(a, b):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return "shapes %s, %s" % (a.shape, b.shape)
    d = np.abs(a - b)
    i = np.unravel_index(np.nanargmax(np.where(np.isnan(d), np.inf, d)), d.shape)
    return "differs by %.6g at %s (%.12g, %.12g)" % (d[i], tuple(int(x) for x in i), a[i], b[i])


def all_columns(alphabet, n_rows):
    """Every column of n_rows pixels over the alphabet, as the columns of one image."""
    import itertools

    return np.array(list(itertools.product(alphabet, repeat=n_rows)), dtype=float).T.copy()
