"""Writes /verif/MANIFEST.json from the check modules (kept as a script so that it stays valid)."""
import importlib, json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECHNIQUE = {
    "C01": "exhaustive exploration of all cloud histories on the real trap managers (state-merging BFS), balance invariant on every transition",
    "C02": "explicit-state reference model of trap occupancy explored in lockstep with the real trap managers over all cloud histories",
    "C03": "explicit-state readout model over all small images, every model run replayed against add_cti",
    "C04": "exhaustive enumeration of express computations; multiplier sums and charge lost per row on the real code",
    "C05": "clock-sequence states checked exhaustively against a geometric model; model readouts of all small images replayed against add_cti",
    "C06": "exhaustive enumeration of images x windows on the real code, against the full-image or sub-image run",
    "C07": "exhaustive enumeration of images x offsets on the real code, against explicit prescan rows",
    "C08": "exhaustive enumeration of partitions of the readout and of all small images; model runs replayed against add_cti",
    "C09": "exhaustive enumeration of images and direction settings on the real code, against the transposed runs",
    "C10": "explicit-state model of columns in sequence over all small images, replayed against add_cti; all column arrangements",
    "C11": "exhaustive exploration of all call sequences on shared objects up to a depth, purity checked after every call",
    "C12": "exhaustive enumeration of images x options x iteration counts against the explicit iteration",
    "C13": "exhaustive enumeration of devices, parameter shapes and boundary electron counts over every access route",
    "C14": "explicit-state injection readout model over all small images, every run replayed against add_cti",
    "C15": "explicit-state pumping model over all small images and pumped pixels, every run replayed against add_cti",
    "C16": "exhaustive enumeration of regroupings of species over all small images on the real code",
    "C17": "exhaustive histories of the real elapsed-time manager in lockstep with a quadrature model; exhaustive grids of times and columns",
    "C18": "exhaustive enumeration of dates (all days, all floats next to the changes) against the published formula",
    "C19": "exhaustive enumeration of masks, corners, classes and options, Frame run against array run",
    "C20": "exhaustive enumeration of seeds, species lists and shapes",
    "C21": "exhaustive cross product of options on the real code compiled with bounds checks",
    "C22": "exhaustive exploration of all passage/save/restore/empty sequences on the real AllTrapManager against a model",
    "C23": "exhaustive enumeration of small images and configurations, monotone-delay invariant on every output",
    "C24": "exhaustive lockstep exploration of two real trap managers over all cloud histories",
    "C25": "exhaustive enumeration of small images, configurations and unit factors, rescaled run against rescaled result",
    "C26": "stateless exploration of thread interleavings up to a preemption bound, and of all interruption points, of the real code under a controlled scheduler",
    "C27": "exhaustive exploration of all assignment sequences on the real objects (state-merging BFS) in lockstep with newly built ones",
    "C28": "exhaustive enumeration of all combinations of options given and left out, and of all change histories of default-built objects, on the real code",
    "C30": "exhaustive exploration of all histories of copying, pickling, using and changing the real settings objects, and exhaustive enumeration of image storage",
    "C29": "exhaustive exploration of all sequences of valid and invalid assignments on the real objects (state-merging BFS)",
}
NOTE = {
    "model_checking": "Exhaustive within the stated bounds; every model transition is executed on (and compared with) the current implementation, so the model cannot drift from the code.",
    "exploration": "Exhaustive enumeration of executions of the implementation within the stated bounds; no claim beyond them.",
}
checks = []
for prop in sorted(TECHNIQUE):
    m = importlib.import_module("mc.checks." + prop.lower())
    checks.append(dict(
        property=prop,
        quick_cmd="bin/check %s quick" % prop,
        thorough_cmd="bin/check %s thorough" % prop,
        evidence_file="evidence/%s.json" % prop,
        technique=TECHNIQUE[prop],
        level=m.LEVEL,
        level_note=NOTE[m.LEVEL],
    ))
out = dict(
    version=1,
    setup_cmd="bin/setup",
    checks=checks,
    not_applicable=[],
    notes="No hooks in /repo: the checks drive the public functions and classes. Cython modules are rebuilt out of tree (/verif/.cache) from /repo's working tree with index bounds checks switched on.",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks))
