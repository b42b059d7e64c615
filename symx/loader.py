"""Loads the modules under test from the current working tree of /repo."""
import builtins
import importlib
import os
import sys
import types

REPO = os.environ.get("SYMX_REPO", "/repo")


class Mods:
    pass


def load(symbolic):
    """The package's modules, with mathutils/math/complex replaced when symbolic."""
    sys.dont_write_bytecode = True
    for k in [k for k in sys.modules if k == "bpypolyskel" or k.startswith("bpypolyskel.")]:
        del sys.modules[k]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    saved = {}
    if symbolic:
        from . import mathutils_stub, math_stub
        mu = mathutils_stub.module()
        repl = {"mathutils": mu, "mathutils.geometry": mu.geometry, "math": math_stub.module()}
        for k, v in repl.items():
            saved[k] = sys.modules.get(k)
            sys.modules[k] = v
    try:
        # stale bytecode is never read: sources are compiled here
        pkg = types.ModuleType("bpypolyskel")
        pkg.__path__ = [os.path.join(REPO, "bpypolyskel")]
        sys.modules["bpypolyskel"] = pkg
        m = Mods()
        finder = _Finder()
        sys.meta_path.insert(0, finder)
        try:
            m.pk = importlib.import_module("bpypolyskel.bpypolyskel")
            m.eu = importlib.import_module("bpypolyskel.bpyeuclid")
            m.pg = importlib.import_module("bpypolyskel.poly2FacesGraph")
        finally:
            sys.meta_path.remove(finder)
        m.mathutils = sys.modules["mathutils"]
        m.Vector = m.mathutils.Vector
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    if symbolic:
        for name, mod in list(sys.modules.items()):
            if name.startswith("bpypolyskel.") and getattr(mod, "__file__", "").startswith(REPO):
                mod.__dict__.setdefault("complex", math_stub.make_complex)
    return m


class _Finder:
    """Finds bpypolyskel.* as source in /repo, never as bytecode."""

    def find_spec(self, name, path=None, target=None):
        if not name.startswith("bpypolyskel."):
            return None
        from importlib.machinery import ModuleSpec
        rel = name.split(".")[1:]
        base = os.path.join(REPO, "bpypolyskel", *rel)
        fn = base + ".py"
        is_pkg = False
        if not os.path.exists(fn):
            fn = os.path.join(base, "__init__.py")
            is_pkg = True
            if not os.path.exists(fn):
                return None
        spec = ModuleSpec(name, self, origin=fn, is_package=is_pkg)
        spec.has_location = True
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn, "rb") as f:
            code = compile(f.read(), fn, "exec", dont_inherit=True)
        module.__file__ = fn
        exec(code, module.__dict__)
