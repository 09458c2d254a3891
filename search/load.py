"""Loads the real package of /repo, repeatedly and independently."""
import ast
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "iso8583"


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """serves the package from source compiled once per process (nothing is written to /repo)."""

    def __init__(self):
        self.code = {}

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *name.split("."))
        for fn, pkg in ((base + ".py", False), (os.path.join(base, "__init__.py"), True)):
            if os.path.isfile(fn):
                sp = importlib.util.spec_from_loader(name, self, origin=fn, is_package=pkg)
                sp.has_location = True
                return sp
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        if fn not in self.code:
            with open(fn, "rb") as f:
                self.code[fn] = compile(f.read(), fn, "exec", dont_inherit=True)
        exec(self.code[fn], module.__dict__)


_finder = _Finder()


class Lib:
    """one instance of the package."""

    def __init__(self, mods):
        self.mods = mods
        p = mods[PKG]
        self.pkg = p
        self.encode, self.decode, self.pp = p.encode, p.decode, p.pp
        self.EncodeError, self.DecodeError = p.EncodeError, p.DecodeError
        self.specs = mods[PKG + ".specs"]


def _take():
    return {k: sys.modules.pop(k) for k in list(sys.modules) if k == PKG or k.startswith(PKG + ".")}


def fresh():
    """a new instance of the package, sharing no module state with earlier ones."""
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)
    old = _take()
    try:
        importlib.import_module(PKG)
        importlib.import_module(PKG + ".specs")
        for n in os.listdir(os.path.join(REPO, PKG)):
            if n.endswith(".py") and n != "__init__.py":
                importlib.import_module(PKG + "." + n[:-3])
        mods = _take()
    finally:
        _take()
        sys.modules.update(old)
    return Lib(mods)


_main = None


def main():
    """the instance registered in sys.modules (pickling finds its classes)."""
    global _main
    if _main is None:
        _take()
        _main = fresh()
        sys.modules.update(_main.mods)
    return _main


def sources():
    d = os.path.join(REPO, PKG)
    for n in sorted(os.listdir(d)):
        if n.endswith(".py"):
            with open(os.path.join(d, n), encoding="utf-8") as f:
                yield n, f.read()


def literals():
    """(ints, strs, bytes) written in the package's code (not its specifications' tables)."""
    ints, strs, byts = {}, {}, {}
    for n, src in sources():
        try:
            tree = ast.parse(src)
        except SyntaxError:
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant):
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int) and abs(v) < 10 ** 9:
                    ints[v] = ints.get(v, 0) + 1
                elif isinstance(v, str) and len(v) <= 60:
                    strs[v] = strs.get(v, 0) + 1
                elif isinstance(v, bytes) and len(v) <= 60:
                    byts[v] = byts.get(v, 0) + 1
    return ints, strs, byts
