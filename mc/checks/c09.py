"""Serial clocking against parallel clocking of the transposed image."""
import itertools

import numpy as np

from mc import images as I, world

LEVEL = "exploration"
RULE = (
    "For every image over the alphabet and every pair of settings for the two directions: serial against the "
    "transpose of parallel on the transpose; both against one after the other; neither; and one direction with "
    "every setting except the traps given for the other. Distinct, non-trivial: (settings, image, output) "
    "where the output differs from the input."
)
BOUNDS = {
    "quick": "all images of shape 2x2, 1x3, 3x1 over 3 values and 2x3, 3x2 over 2 values, one 3x4, and for each setting one 2x140 and one 35x2; all ordered "
    "pairs of 9 settings (readout class, phases, wells, traps, express, offset, windows)",
    "thorough": "all images of shape 2x2, 1x3, 3x1, 2x3, 3x2 over 3 values; all ordered pairs of 16 settings",
}
CCD2 = {"frac": [0.4, 0.6], "full": 1000.0, "notch": 2.0, "power": 0.7}
CCD3 = {"frac": [0.5, 0.2, 0.3], "full": 900.0, "notch": 0.0, "power": 0.6}
SETTINGS = [
    dict(ccd=I.CCDS["plain"], roe=dict(kind="image", dwell=[1.0]), traps=I.TRAPS["instants"], express=0, offset=0),
    dict(ccd=I.CCDS["notch"], roe=dict(kind="image", dwell=[0.3]), traps=I.TRAPS["slow"], express=1, offset=1),
    dict(ccd=CCD3, roe=dict(kind="image", dwell=[0.3, 0.2, 0.5], force=False), traps=I.TRAPS["mixed"], express=2, offset=0),
    dict(ccd=CCD2, roe=dict(kind="image", dwell=[0.5, 2.0], first=False), traps=I.TRAPS["instant"], express=0, offset=2),
    dict(ccd=I.CCDS["plain"], roe=dict(kind="image", dwell=[1.0], between=False), traps=I.TRAPS["dense-slow"], express=0, offset=0),
    dict(ccd=I.CCDS["plain"], roe=dict(kind="image", dwell=[1.0], first=False, dtype="int", between=False), traps=I.TRAPS["dense"], express=2, offset=1),
    dict(ccd=I.CCDS["plain"], roe=dict(kind="ci", dwell=[0.7]), traps=I.TRAPS["dense-mixed"], express=2, offset=1),
    dict(ccd={"frac": [0.0, 1.0], "full": 1000.0, "notch": 0.0, "power": 0.8}, roe=dict(kind="pump", dwell=[0.5, 0.5, 0.5, 0.5], n=2),
         traps=I.TRAPS["instants"], express=0, offset=0, rows=1, none=True),
    dict(ccd=I.CCDS["notch"], roe=dict(kind="image", dwell=[2.0]), traps=I.TRAPS["three"], express=0, offset=0, rows=-1),
    # thorough only
    dict(ccd=CCD2, roe=dict(kind="image", dwell=[0.5, 0.0]), traps=I.TRAPS["dense"], express=1, offset=0),
    dict(ccd=CCD3, roe=dict(kind="image", dwell=[0.5, 1.0, 0.5], dtype="int"), traps=I.TRAPS["dense-mixed"], express=2, offset=3),
    dict(ccd=CCD2, roe=dict(kind="ci", dwell=[0.5, 1.0], dtype="int"), traps=I.TRAPS["slows"], express=2, offset=2),
    dict(ccd=I.CCDS["notch"], roe=dict(kind="ci", dwell=[0.5], between=False), traps=I.TRAPS["dense-slow"], express=0, offset=0),
    dict(ccd=CCD2, roe=dict(kind="image", dwell=[0.5, 1.0], force=False, first=False, between=False), traps=I.TRAPS["slow"], express=1, offset=1),
    dict(ccd=I.CCDS["plain"], roe=dict(kind="pump", dwell=[0.5, 0.5], n=5), traps=I.TRAPS["dense-slow"], express=2, offset=0, rows=0),
    dict(ccd=I.CCDS["notch"], roe=dict(kind="image", dwell=[0.1], first=False), traps=I.TRAPS["dense"], express=0, offset=4, rows=0),
]


def images(tier):
    v3, v2 = [0.0, 6.0, 700.0], [6.0, 700.0]
    out = []
    for shape in [(2, 2), (1, 3), (3, 1)]:
        for v in itertools.product(v3, repeat=shape[0] * shape[1]):
            out.append(np.array(v).reshape(shape))
    for shape in [(2, 3), (3, 2)]:
        for v in itertools.product(v3 if tier == "thorough" else [0.0, 700.0], repeat=6):
            out.append(np.array(v).reshape(shape))
    long = np.zeros((2, 140))
    long[0, [0, 7, 70, 139]] = 700.0, 6.0, 300.0, 700.0
    long[1, 128:] = 40.0
    out += [long, long.T[:35].copy()]
    out.append(np.array([[0.0, 6.0, 700.0, 40.0], [300.0, 0.0, 6.0, 0.0], [40.0, 40.0, 0.0, 1200.0]]))
    return out


def cases(tier):
    k = len(SETTINGS) if tier == "thorough" else 9
    for i in range(k):
        for j in range(k):
            pieces = 4 if i == j or tier == "thorough" else 1
            for piece in range(pieces):
                yield dict(tier=tier, a=i, b=j, piece=[piece, pieces])


def arguments(s, prefix, n, traps=True):
    kw = I.direction(s["ccd"], s["roe"], s["traps"], prefix=prefix, express=s["express"], offset=s["offset"])
    if not traps:
        del kw[prefix + "_traps"]
    if "rows" in s:
        kw[prefix + "_window_range"] = s["rows"] % n if s["roe"]["kind"] == "pump" else range(n // 2, n)
    return kw


def run_case(case, rec):
    A, B = SETTINGS[case["a"]], SETTINGS[case["b"]]
    every = images(case["tier"])
    if case["tier"] == "quick":
        # spread the images over the pairs, all of them on the diagonal
        every = every if case["a"] == case["b"] else every[(case["a"] * 9 + case["b"]) % 5 :: 5] + every[-1:]
    for image in every[case["piece"][0] :: case["piece"][1]]:
        rows, cols = image.shape
        given = image.copy()

        def run(img, *parts):
            kw = {}
            for p in parts:
                kw.update(p)
            rec.evals += 1
            return np.array(world.ac.add_cti(img, **kw))

        def same(what, got, want):
            if not world.close(got, want):
                rec.violation(
                    "%s: %s" % (what, world.worst(got, want)), image=image.tolist(), parallel=A, serial=B,
                    got=got.tolist(), want=want.tolist(),
                )

        par = arguments(A, "parallel", rows)
        ser = arguments(B, "serial", cols)
        # windows of the other direction select columns and apply to both
        win_p = {k: v for k, v in par.items() if k.endswith("window_range")}
        win_s = {k: v for k, v in ser.items() if k.endswith("window_range")}

        got_s = run(given, ser, win_p)
        swap = {"serial": "parallel", "parallel": "serial"}
        turned = {swap[k.split("_")[0]] + "_" + k.split("_", 1)[1]: v for k, v in {**ser, **win_p}.items()}
        want_s = run(image.T.copy(), turned).T
        same("serial against parallel of the transpose", got_s, want_s)
        got_p = run(given, par, win_s)
        got = run(given, par, ser)
        same("both against one after the other", got, run(got_p.copy(), ser, win_p))
        if np.any(got != image):
            rec.seen_arrays(str((case["a"], case["b"])), image, got)
        if np.any(got_s != got_p):
            rec.label("the directions differ")
        same(
            "parallel, with serial settings but no serial traps", got_p,
            run(given, par, arguments(B, "serial", cols, traps=False)),
        )
        same(
            "serial, with parallel settings but no parallel traps", got_s,
            run(given, ser, arguments(A, "parallel", rows, traps=False)),
        )
        same("neither", run(given), image)
        if A is SETTINGS[0] and B is SETTINGS[0]:
            # these are the default readout electronics
            less = [{k: v for k, v in kw.items() if not k.endswith("_roe")} for kw in (par, ser)]
            same("without readout electronics", run(given, *less), got)
        same(
            "settings but no traps",
            run(given, arguments(A, "parallel", rows, traps=False), arguments(B, "serial", cols, traps=False)), image,
        )
        if not np.array_equal(given, image):
            rec.violation("the image passed in was changed", image=image.tolist())
    rec.sample(parallel=A, serial=B, image=every[0].tolist())
