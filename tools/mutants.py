"""Generic mutation sweep (development aid, not a check): which small changes survive the
repository's tests, and of those, which survive the checks.

  mutants.py tests OUT.json     list mutants, run the repository's tests on each (8 in parallel)
  mutants.py checks OUT.json [shard/of]   run the checks on each mutant that survived the tests, until one catches it
"""
import ast, io, json, os, re, shutil, subprocess, sys, tokenize, time
from concurrent.futures import ThreadPoolExecutor
import queue

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed

SWAP = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="],
        "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "//": ["/"], "%": ["//"],
        "+=": ["-=", "="], "-=": ["+=", "="], "*=": ["/=", "="],
        "and": ["or"], "or": ["and"], "not": [""], "True": ["False"], "False": ["True"],
        "min": ["max"], "max": ["min"], "argmax": ["argmin"], "ceil": ["floor"], "deepcopy": [""],
        "inf": ["nan"], "ones": ["zeros"], "zeros": ["ones"], "if": [], "elif": []}


def code_lines(src, path):
    """Line numbers (0-based) inside docstrings, to skip."""
    skip = set()
    inside = False
    for i, l in enumerate(src.split("\n")):
        n = l.count('"""')
        if inside or n:
            skip.add(i)
        if n % 2:
            inside = not inside
    return skip


def mutants(path):
    raw = open(os.path.join("/repo", path), newline="").read()
    src = raw.replace("\r\n", "\n")
    lines = src.split("\n")
    skip = code_lines(src, path)
    out = []
    pat = re.compile(r"(?<![\w.])(\d+\.\d*(?:e-?\d+)?|\d+)(?![\w.])|\b(and|or|not|True|False|min|max|argmax|ceil|deepcopy|inf|ones|zeros)\b|(//|<=|>=|==|!=|\+=|-=|\*=|(?<![\*])\*(?![\*])|[+\-/<>%])")
    for i, l in enumerate(lines):
        if i in skip or not l.strip() or l.lstrip().startswith(("#", "import", "from", "cimport", "@", "cdef np", "def ", "cpdef")):
            continue
        code = l.split("#")[0]
        for m in pat.finditer(code):
            t = m.group(0)
            if m.group(1):
                v = float(t) if "." in t or "e" in t else int(t)
                reps = [str(v + 1)] + ([str(v - 1)] if v == 1 else []) if isinstance(v, int) else [repr(v * 1.01)]
            else:
                reps = SWAP.get(t, [])
                if t in "+-" and code[:m.start()].rstrip().endswith(("(", "=", ",", "[", "return", ":")):
                    reps = [""]  # unary
                if t in "*" and code[:m.start()].rstrip().endswith(("(", ",")):
                    reps = []
            for r in reps:
                out.append((i, l[:m.start()] + r + l[m.end():]))
        # parallel <-> serial
        for m in re.finditer(r"\b(parallel|serial)_", code):
            r = {"parallel": "serial", "serial": "parallel"}[m.group(1)]
            out.append((i, l[:m.start()] + r + l[m.end() - 1:]))
        for m in re.finditer(r"\.copy\(\)", code):
            out.append((i, l[:m.start()] + l[m.end():]))
        # statement deletion (single line, balanced)
        s = code.strip()
        if code.count("(") == code.count(")") and code.count("[") == code.count("]") and not s.endswith((":", ",", "(")) and \
                (re.match(r"^[\w\.\[\], :+]+ [-+*]?= .+", s) or re.match(r"^[\w\.]+\(.*\)$", s) or s in ("continue",)) :
            prev = lines[i - 1].rstrip()
            if not prev.endswith((",", "(", "[")):
                out.append((i, l[:len(l) - len(l.lstrip())] + "pass"))
        if re.match(r"\s*if .+:$", code) :
            ind = l[:len(l) - len(l.lstrip())]
            out.append((i, ind + "if True:"))
            out.append((i, ind + "if False:"))
    seen, res = set(), []
    for i, new in out:
        if (i, new) in seen or new == lines[i]:
            continue
        seen.add((i, new))
        res.append(dict(file=path, line=i, old=lines[i], new=new))
    return res


def apply(d, m):
    p = os.path.join(d, m["file"])
    raw = open(p, newline="").read()
    nl = "\r\n" if "\r\n" in raw else "\n"
    ls = raw.split(nl)
    # the file may have changed a little since the list was made
    at = [i for i in range(len(ls)) if ls[i] == m["old"] and abs(i - m["line"]) < 25]
    if not at:
        return False
    i = min(at, key=lambda i: abs(i - m["line"]))
    ls[i] = m["new"]
    open(p, "w", newline="").write(nl.join(ls))
    return True


def revert(d, m):
    subprocess.check_call(["git", "checkout", "-q", "--", m["file"]], cwd=d)


FILES = ["arcticpy/main_utils.pyx", "arcticpy/trap_managers_utils.pyx", "arcticpy/trap_managers.py",
         "arcticpy/roe.py", "arcticpy/main.py", "arcticpy/ccd.py", "arcticpy/traps.py", "arcticpy/util.py"]


def run_tests(out):
    ms = [m for f in FILES for m in mutants(f)]
    print(len(ms), "mutants", flush=True)
    root = "/tmp/mutants"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    free = queue.Queue()
    for i in range(8):
        d = "%s/w%d" % (root, i)
        subprocess.check_call(["cp", "-a", "/repo", d])
        free.put(d)
    done = [0]

    def one(m):
        d = free.get()
        try:
            apply(d, m)
            try:
                if m["file"].endswith(".pyx"):
                    rc, o = seed.build(d)
                    if rc:
                        m["tests"] = "nobuild"
                        return
                else:
                    try:
                        compile(open(os.path.join(d, m["file"])).read(), "x", "exec")
                    except SyntaxError:
                        m["tests"] = "nobuild"
                        return
                try:
                    rc, o = seed.sh("timeout 120 %s -m pytest -q -x -p no:cacheprovider --disable-warnings test_arcticpy" % seed.PY,
                                    d, dict(seed.ENV, PYTHONPATH=d), 130)
                    m["tests"] = "pass" if rc == 0 else "fail"
                except subprocess.TimeoutExpired:
                    m["tests"] = "fail"
            finally:
                revert(d, m)
                if m["file"].endswith(".pyx") :
                    m["rebuild"] = 1
        finally:
            free.put(d)
            done[0] += 1
            if done[0] % 50 == 0:
                print(done[0], flush=True)

    # pyx first, then rebuild, then the rest
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, [m for m in ms if m["file"].endswith(".pyx")]))
    for i in range(8):
        seed.build("%s/w%d" % (root, i))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, [m for m in ms if not m["file"].endswith(".pyx")]))
    json.dump(ms, open(out, "w"), indent=0)
    import collections
    print(collections.Counter((m["file"], m["tests"]) for m in ms))
    shutil.rmtree(root)


ORDER = {
    "arcticpy/main_utils.pyx": "C03 C15 C10 C14 C05 C16 C21 C11",
    "arcticpy/trap_managers_utils.pyx": "C01 C02 C24",
    "arcticpy/trap_managers.py": "C22 C01 C24 C02 C17 C10",
    "arcticpy/roe.py": "C04 C15 C14 C27 C05 C08 C21",
    "arcticpy/main.py": "C12 C09 C08 C06 C19 C11",
    "arcticpy/ccd.py": "C13 C27",
    "arcticpy/traps.py": "C20 C17 C24",
    "arcticpy/util.py": "C13 C04 C14",
}


def run_checks(path, jobs=4):
    ms = json.load(open(path))
    base, d = seed.copy("mut")
    import random
    order = list(ms)
    random.Random(1).shuffle(order)
    for m in order:
        if m["tests"] != "pass" or "caught" in m or m.get("skip"):
            continue
        if not apply(d, m):
            continue
        m["caught"] = ""
        t = time.time()
        for c in (["C18"] if m["file"].endswith("main.py") and m["line"] > 305 else ORDER[m["file"]].split()):
            try:
                rc, o = seed.sh("bin/check %s quick --jobs %d" % (c, jobs), seed.VERIF, dict(seed.ENV, VERIF_REPO=d), 900)
            except subprocess.TimeoutExpired:
                rc = 99
            if rc:
                m["caught"] = c + ("" if rc == 1 else " rc=%d" % rc)
                break
        revert(d, m)
        print("%-10s %4.0f s %s:%d\n      - %s\n      + %s" % (m["caught"] or "SURVIVED", time.time() - t, m["file"], m["line"] + 1, m["old"].strip(), m["new"].strip()), flush=True)
        json.dump(ms, open(path, "w"), indent=0)
    shutil.rmtree(base)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for f in FILES:
            print(f, len(mutants(f)))
    elif sys.argv[1] == "tests":
        run_tests(sys.argv[2])
    else:
        run_checks(sys.argv[2])
