"""Imaging readout against explicit transfers of every row past the traps of one pixel."""
from mc import images as I

LEVEL = "model_checking"
RULE = (
    "Every column over the alphabet, for every combination of the options, is read out by the reference "
    "model (state: trap occupancy profiles; transition: one row passing the traps in one pass) and by "
    "add_cti; the images must agree. Distinct, non-trivial: (column, output) pairs where traps acted."
)
BOUNDS = {
    "quick": "all columns of up to 4 pixels over 4 values, plus sparse columns of 7; every express value; "
    "both first-transfer settings and multiplier types; nine trap mixtures; offsets 0 and 2; dwell times 0.001-40; some columns of 33, 140 and 270 pixels and offsets of 60-300",
    "thorough": "all columns of up to 5 pixels over 5 values (6 pixels over 3), plus sparse columns of 12; "
    "every express value; two wells",
}


def cases(tier):
    if tier == "quick":
        sets = [["all", I.ALPHABET, n] for n in (1, 2, 3)]
        sets += [["all", [0.0, 6.0, 700.0], 4], ["sparse", 7, [200.0], 2]]
        # at and above the full well, within the notch
        sets += [["all", [0.0, 4.0, 1000.0, 1600.0], n] for n in (1, 2, 3)]
        wells = ["plain"]
    else:
        sets = [["all", I.ALPHABET + [1500.0], n] for n in (1, 2, 3, 4, 5)]
        sets += [["all", [0.0, 6.0, 700.0], 6], ["sparse", 12, [200.0, 5.0], 2]]
        sets += [["all", [0.0, 4.0, 5.0, 1000.0, 1600.0], n] for n in (1, 2, 3, 4)]
        wells = ["plain", "notch"]
    for case in large(tier):
        yield case
    for dwell in (1e-3, 0.05, 0.7, 40.0):
        for name, groups in sorted(I.TRAPS.items()):
            yield dict(
                cols=["all", I.ALPHABET, 3], traps=groups, ccd=I.CCDS["notch" if dwell == 0.7 else "plain"], first=True, dtype="float",
                express=0, offset=0, dwell=dwell,
            )
    for cols in sets:
        n = cols[2] if cols[0] == "all" else cols[1]
        for i, (name, groups) in enumerate(sorted(I.TRAPS.items())):
            for ccd in wells if tier == "thorough" else [["plain", "notch"][i % 2]]:
                for first in (True, False):
                    for dtype in ("float", "int"):
                        for express in range(0, n + 2):
                            if tier == "quick" and dtype == "int" and (express in (0, 1) or n < 3):
                                continue
                            for offset in (0,) if n > 4 else (0, 2):
                                if offset and tier == "quick" and (n != 3 or i % 2):
                                    continue
                                yield dict(
                                    cols=cols, traps=groups, ccd=I.CCDS[ccd], first=first,
                                    dtype=dtype, express=express, offset=offset,
                                )


def large(tier):
    """Columns and distances from the readout far beyond the rest, at a few settings."""
    deep = tier == "thorough"
    names = ("instant", "instants", "slow", "slows", "mixed", "three") if deep else ("instants", "slows", "mixed")
    settings = [(33, 0, 0), (140, 1, 0), (140, 2, 0), (8, 1, 140), (8, 0, 60), (270, 1, 0), (40, 5, 300)]
    if deep:
        settings += [(140, 0, 0), (300, 3, 0), (20, 0, 270), (600, 1, 0), (70, 65, 0)]
    for name in names:
        for n, express, offset in settings:
            for first, dtype in ((True, "float"), (False, "int"), (False, "float"), (True, "int")):
                if dtype == "int" and express < 2 or express == 0 and not first:
                    continue
                for value in ([700.0], [40.0]):
                    yield dict(
                        cols=["tall", n, value], traps=I.TRAPS[name], ccd=I.CCDS["plain"], first=first,
                        dtype=dtype, express=express, offset=offset,
                    )


def run_case(case, rec):
    roe = dict(kind="image", dwell=[case.get("dwell", 1.0)], first=case["first"], dtype=case["dtype"])
    I.against_model(
        rec, I.columns(case["cols"]), case["ccd"], roe, case["traps"],
        express=case["express"], offset=case["offset"], atol=1e-6 if case["cols"][0] == "tall" else 1e-8,
    )
    rec.sample(**case)
