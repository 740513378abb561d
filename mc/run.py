"""Run the check of one property:  python -m mc.run C03 [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1, with a line 'VIOLATION property=...': broken.
Exit 2: the check itself could not run (e.g. the code does not compile).
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = {"quick": 400, "thorough": 3600}
MAX_REPORTED = 5


class Rec:
    """What one case covered and found."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.labels = collections.Counter()
        self.keys = set()
        self.violations = []
        self.samples = []

    def seen(self, *key):
        """Count a distinct, non-trivial behaviour."""
        self.keys.add(
            int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")
        )

    def seen_arrays(self, *arrays):
        h = hashlib.blake2b(digest_size=8)
        for a in arrays:
            if hasattr(a, "tobytes"):
                h.update(str(a.shape).encode())
                h.update(a.tobytes())
            else:
                h.update(repr(a).encode())
        self.keys.add(int.from_bytes(h.digest(), "big"))

    def label(self, name, n=1):
        self.labels[name] += n

    def sample(self, **x):
        if len(self.samples) < 2:
            self.samples.append(x)

    def violation(self, message, key=None, **what):
        """key: identifies the failing input if it is listed as a known finding."""
        if len(self.violations) < 50:
            self.violations.append(dict(message=message, key=key, **what))

    def dump(self):
        return dict(
            states=self.states, transitions=self.transitions, traces=self.traces,
            evals=self.evals, labels=dict(self.labels), keys=self.keys,
            violations=self.violations, samples=self.samples,
        )


def in_new_process(function, *args):
    """Run in a process of its own, forked from one that has not used the code yet."""
    here, there = mp.Pipe()

    def body():
        try:
            there.send((True, function(*args)))
        except Exception:
            there.send((False, traceback.format_exc()))

    p = mp.Process(target=body)
    p.start()
    there.close()
    try:
        out = here.recv() if here.poll(120) else (False, "no answer")
    except EOFError:
        out = (False, "the process died")
    p.kill()
    p.join()
    return out


def _one(module, case):
    rec = Rec()
    try:
        module.run_case(case, rec)
    except Exception:
        rec.violation("exception on a valid input", traceback=traceback.format_exc())
    return rec.dump()


def _worker(conn, module):
    import signal

    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        index, case = job
        conn.send((index, _one(module, case)))


class _Slot:
    def __init__(self, module):
        self.conn, child = mp.Pipe()
        self.proc = mp.Process(target=_worker, args=(child, module), daemon=True)
        self.proc.start()
        child.close()
        self.job = None
        self.since = 0.0

    def give(self, index, case):
        self.job, self.since = index, time.time()
        self.conn.send((index, case))

    def stop(self):
        try:
            self.proc.kill()
            self.proc.join()
            self.conn.close()
        except Exception:
            pass


def explore(module, cases, jobs, timeout, stop_after):
    """Yield (case, result) for each case; stops early once stop_after cases have failed."""
    queue = collections.deque(enumerate(cases))
    table = dict(queue)
    slots = [_Slot(module) for _ in range(min(jobs, max(1, len(queue))))]
    failed = 0
    try:
        while True:
            for s in slots:
                if s.job is None and queue and failed < stop_after:
                    s.give(*queue.popleft())
            busy = [s for s in slots if s.job is not None]
            if not busy:
                return
            ready = mp.connection.wait(
                [s.conn for s in busy] + [s.proc.sentinel for s in busy], timeout=1.0
            )
            for i, s in enumerate(slots):
                if s.job is None:
                    continue
                result = None
                if s.conn in ready or s.proc.sentinel in ready:
                    try:
                        result = s.conn.recv() if s.conn.poll() else None
                        if result is None and not s.proc.is_alive():
                            raise EOFError
                    except (EOFError, OSError):
                        s.proc.join()
                        rec = Rec()
                        rec.violation("the process died, exit code %s" % s.proc.exitcode)
                        result = (s.job, rec.dump())
                elif time.time() - s.since > timeout:
                    rec = Rec()
                    rec.violation("no answer after %d s" % timeout)
                    result = (s.job, rec.dump())
                    s.stop()
                if result is None:
                    continue
                index, out = result
                out["seconds"] = time.time() - s.since
                s.job = None
                if not s.proc.is_alive():
                    s.stop()
                    slots[i] = _Slot(module)
                if any(v["key"] is None for v in out["violations"]):
                    failed += 1
                yield table.pop(index), out
    finally:
        for s in slots:
            s.stop()


def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, text = rest.split(" ", 1)
                out[key[len("key="):]] = text
    return out


def save_replay(prop, case, violation):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    text = json.dumps(dict(property=prop, case=case, violation=violation), indent=1, default=str)
    name = "%s-%s.json" % (prop, hashlib.sha256(text.encode()).hexdigest()[:12])
    with open(os.path.join(folder, name), "w") as f:
        f.write(text + "\n")
    return "replays/" + name


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--all", action="store_true", help="do not stop at the first failing cases")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--profile", action="store_true")
    args = ap.parse_args()
    prop = args.property.upper()
    start = time.time()
    os.chdir(VERIF)
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(v, "1")

    from mc import build

    try:
        package = build.load()
    except build.BuildError as e:
        print("cannot build the code under test:\n%s" % e)
        return 2
    from mc import world

    world.use(package)
    module = importlib.import_module("mc.checks." + prop.lower())

    if hasattr(module, "prepare"):
        module.prepare(in_new_process)
    if args.replay:
        data = json.load(open(args.replay))
        out = _one(module, data["case"])
        for v in out["violations"]:
            print(json.dumps(v, indent=1, default=str))
        if out["violations"]:
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
        print("no violation")
        return 0

    cases = list(module.cases(args.tier))
    if args.list:
        for c in cases:
            print(json.dumps(c))
        return 0
    jobs = args.jobs or len(os.sched_getaffinity(0))
    known = known_findings(prop)
    total = Rec()
    reported, seen_known, n_viol = [], set(), 0
    done = 0
    t_cases = time.time()
    stop_after = 10 ** 9 if args.all else 3
    times = []
    for case, out in explore(module, cases, jobs, CASE_TIMEOUT[args.tier], stop_after):
        done += 1
        times.append((out["seconds"], json.dumps(case)[:300]))
        total.states += out["states"]
        total.transitions += out["transitions"]
        total.traces += out["traces"]
        total.evals += out["evals"]
        total.labels.update(out["labels"])
        total.keys |= out["keys"]
        for s in out["samples"]:
            if len(total.samples) < 4:
                total.samples.append(s)
        for v in out["violations"]:
            if v["key"] is not None and v["key"] in known:
                seen_known.add(v["key"])
                continue
            n_viol += 1
            if len(reported) < MAX_REPORTED:
                reported.append((case, v))
    wall = time.time() - start
    if args.profile:
        for t, c in sorted(times, reverse=True)[:12]:
            print("   %.2f s %s" % (t, c))
        groups = collections.Counter()
        for t, c in times:
            groups[c.split(",")[0]] += t
        print("   total per part:", dict(groups))
    for key in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
    level = module.LEVEL
    coverage = {
        "cases": done,
        "cases_planned": len(cases),
        "exhaustive": bool(done == len(cases) and not n_viol),
        "bounds": module.BOUNDS[args.tier] if isinstance(module.BOUNDS, dict) else module.BOUNDS,
        "rule": module.RULE,
        "samples": total.samples,
        "behaviours_met": dict(sorted(total.labels.items())),
        "distinct_nontrivial": len(total.keys),
        "evaluations": total.evals,
    }
    if level == "model_checking":
        coverage.update(
            states=total.states, transitions=total.transitions,
            traces_validated_against_impl=total.traces,
        )
    evidence = {
        "property": prop,
        "tier": args.tier,
        "seed": int(os.environ.get("VERIF_SEED") or 1),
        "level": level,
        "coverage": coverage,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": n_viol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write("\n")
    print(
        "%s %s: %d/%d cases, %d evaluations, %d distinct, states %d, transitions %d, traces %d, %.1f s (%.1f s exploring)"
        % (prop, args.tier, done, len(cases), total.evals, len(total.keys), total.states,
           total.transitions, total.traces, wall, time.time() - t_cases)
    )
    for k, v in sorted(total.labels.items()):
        print("   %-40s %d" % (k, v))
    if reported:
        paths = []
        for case, v in reported:
            paths.append(save_replay(prop, case, v))
            print("-- %s\n   case %s" % (v["message"], json.dumps(case)[:600]))
            for k, x in v.items():
                if k not in ("message", "key"):
                    print("   %s: %s" % (k, str(x)[-1500:]))
        for p in paths:
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
