"""Confirm planted bugs in a scratch copy of /repo, and see which checks catch them.

  seed.py new ID      reads edits from stdin: a Python literal
                      {"edits": [(file, old, new), ...], "property":..., "needs":..., "what_it_breaks":...}
                      makes seeded/ID/patch.diff and meta.json
  seed.py confirm ID  patch applies, builds, tests pass, demo passes without and fails with it
  seed.py catch ID [CHECK...]   runs checks (default: the one of the property) against the patched copy
Scratch copies are made under /tmp and removed.
"""
import ast, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def sh(cmd, cwd, env=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout


def copy(name):
    base = tempfile.mkdtemp(prefix="seed-%s-" % name, dir="/tmp")
    d = os.path.join(base, "repo")
    subprocess.check_call(["cp", "-a", "/repo", d])
    return base, d


def build(d):
    # setup.py goes by modification times
    sh("touch arcticpy/*.pyx", d)
    return sh("%s setup.py build_ext --inplace" % PY, d, dict(ENV, PYTHONPATH=d))


def tests(d):
    want = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")))
    rc, out = sh("%s -m pytest -q -x -p no:cacheprovider --disable-warnings test_arcticpy" % PY, d,
                 dict(ENV, PYTHONPATH=d))
    tail = [l for l in out.splitlines() if l.strip()][-4:]
    return rc == 0, tail


def demo(folder, d):
    """The demo is made for /repo: run it with its own path in the copy."""
    env = dict(ENV, PYTHONPATH=d)
    t = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    for f in os.listdir(folder):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(folder, f), t)
    rc, out = sh("bash %s/demo.sh" % t, d, env, 300)
    shutil.rmtree(t)
    return rc, out


def new(id):
    spec = ast.literal_eval(sys.stdin.read())
    base, d = copy(id)
    for f, old, new in spec["edits"]:
        p = os.path.join(d, f)
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=d)
    folder = os.path.join(VERIF, "seeded", id)
    os.makedirs(folder, exist_ok=True)
    open(os.path.join(folder, "patch.diff"), "wb").write(diff)
    json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")},
              open(os.path.join(folder, "meta.json"), "w"), indent=1)
    shutil.rmtree(base)


def patched(id):
    base, d = copy(id)
    subprocess.check_call(["git", "apply", os.path.join(VERIF, "seeded", id, "patch.diff")], cwd=d)
    return base, d


def confirm(id):
    folder = os.path.join(VERIF, "seeded", id)
    base, d = copy(id)
    rc0, out0 = demo(folder, d)
    subprocess.check_call(["git", "apply", os.path.join(folder, "patch.diff")], cwd=d)
    rcb, outb = build(d)
    ok, tail = tests(d)
    rc1, out1 = demo(folder, d)
    shutil.rmtree(base)
    good = rc0 == 0 and rcb == 0 and ok and rc1 != 0
    print("%s %s: demo clean %d, build %d, tests %s, demo patched %d" % (id, "OK" if good else "BAD", rc0, rcb, ok, rc1))
    if not good:
        print("\n".join(tail), "\n--clean:", out0[-800:], "\n--patched:", out1[-800:], outb[-500:] if rcb else "")
    return good


def catch(id, checks):
    meta = json.load(open(os.path.join(VERIF, "seeded", id, "meta.json")))
    base, d = patched(id)
    out = {}
    for c in checks or [meta["property"]]:
        t = time.time()
        rc, o = sh("bin/check %s quick" % c, VERIF, dict(ENV, VERIF_REPO=d))
        out[c] = rc
        lines = [l for l in o.splitlines() if l.startswith("--")][:1]
        print("%s %s: %s (%.0f s) %s" % (id, c, {0: "quiet", 1: "CAUGHT"}.get(rc, "ERROR %d" % rc), time.time() - t, (lines or [""])[0][:200]), flush=True)
        if rc not in (0, 1):
            print(o[-1500:])
    shutil.rmtree(base)


if __name__ == "__main__":
    what, id = sys.argv[1:3]
    if what == "new":
        new(id)
    elif what == "confirm":
        sys.exit(0 if confirm(id) else 1)
    else:
        catch(id, sys.argv[3:])
