"""Compile /repo's Cython modules out of tree and make `import arcticpy` use them.

The Python sources are imported straight from the repository's working tree; only the
extension modules are rebuilt (keyed by the content of every .pyx/.pxd/.pxi file), with
index bounds checking switched on so that an access outside the image or the trap
records raises IndexError instead of corrupting memory.
"""
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PACKAGE = "arcticpy"


class BuildError(Exception):
    pass


def _sources():
    folder = os.path.join(REPO, PACKAGE)
    names = sorted(
        n for n in os.listdir(folder) if n.rsplit(".", 1)[-1] in ("pyx", "pxd", "pxi")
    )
    return folder, names


def _cache_root():
    for root in (os.path.join(VERIF, ".cache"), os.path.join(tempfile.gettempdir(), "verif-cache")):
        try:
            os.makedirs(root, exist_ok=True)
            probe = os.path.join(root, ".w%d" % os.getpid())
            open(probe, "w").close()
            os.remove(probe)
            return root
        except OSError:
            continue
    raise BuildError("nowhere to build")


def _compile(out, checked):
    import numpy as np

    folder, names = _sources()
    pkg = os.path.join(out, PACKAGE)
    os.makedirs(pkg)
    open(os.path.join(pkg, "__init__.py"), "w").close()
    for name in names:
        text = open(os.path.join(folder, name)).read()
        if checked:
            text = re.sub(r"boundscheck\s*\(\s*False\s*\)", "boundscheck(True)", text)
            text = re.sub(r"boundscheck\s*=\s*False", "boundscheck=True", text)
        open(os.path.join(pkg, name), "w").write(text)
    stems = [n[:-4] for n in names if n.endswith(".pyx")]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    cy = subprocess.run(
        [sys.executable, "-m", "cython", "-3"]
        + [os.path.join(pkg, s + ".pyx") for s in stems],
        cwd=out, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if cy.returncode:
        raise BuildError(cy.stdout)
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    jobs = []
    for s in stems:
        so = os.path.join(pkg, s + suffix)
        jobs.append(
            subprocess.Popen(
                ["gcc", "-std=c99", "-O1", "-w", "-fPIC", "-shared", "-fwrapv",
                 "-I", np.get_include(), "-I", sysconfig.get_path("include"),
                 os.path.join(pkg, s + ".c"), "-o", so],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            )
        )
    for j in jobs:
        text = j.communicate()[0]
        if j.returncode:
            raise BuildError(text)
    for s in stems:
        os.remove(os.path.join(pkg, s + ".c"))
    return stems


def build(checked=True):
    """Return {module name: shared object} for the current working tree."""
    folder, names = _sources()
    h = hashlib.sha256()
    h.update(b"checked" if checked else b"plain")
    h.update(sys.version.encode())
    for n in names + ["../setup.py"]:
        h.update(n.encode() + b"\0")
        try:
            h.update(open(os.path.join(folder, n), "rb").read())
        except OSError:
            pass
    key = h.hexdigest()[:24]
    root = _cache_root()
    final = os.path.join(root, key)
    if not os.path.isdir(final):
        tmp = tempfile.mkdtemp(dir=root)
        try:
            _compile(tmp, checked)
            try:
                os.rename(tmp, final)
            except OSError:
                if not os.path.isdir(final):
                    raise
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    pkg = os.path.join(final, PACKAGE)
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    return {
        PACKAGE + "." + n[: -len(suffix)]: os.path.join(pkg, n)
        for n in sorted(os.listdir(pkg))
        if n.endswith(suffix)
    }


class _FreshSource(importlib.machinery.SourceFileLoader):
    """Always compiles the source as it is now; never trusts a .pyc."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        so = self.table.get(name)
        if so is None:
            if name != PACKAGE and not name.startswith(PACKAGE + "."):
                return None
            spec = importlib.machinery.PathFinder.find_spec(name, path, target)
            if spec is not None and isinstance(
                spec.loader, importlib.machinery.SourceFileLoader
            ):
                spec.loader = _FreshSource(spec.loader.name, spec.loader.path)
            return spec
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


def load(checked=True):
    """Build if needed, then import arcticpy from the working tree."""
    table = build(checked)
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder(table))
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    os.environ.setdefault("MPLBACKEND", "Agg")
    import warnings

    warnings.filterwarnings("ignore")
    import arcticpy

    assert os.path.realpath(arcticpy.__file__).startswith(os.path.realpath(REPO)), arcticpy.__file__
    for name, so in table.items():
        mod = sys.modules.get(name)
        assert mod is None or mod.__file__ == so, (name, mod.__file__)
    return arcticpy
