"""Loads pyqlaw from /repo's working tree with a symbolic environment around it.

The modules are compiled from the current source files, unmodified; what changes is what
they see: `import numpy` yields the symbolic numpy, numba's njit is the identity, plotting
and SPICE are stand-ins, and a few builtins (float, min, max, all, any, sum, print, open) understand
symbolic values.  A harness may replace named functions of a submodule right after it was
executed (so every later importer gets the replacement)."""
import builtins
import importlib.abc
import importlib.util
import math
import os
import sys
import types
import numpy as real_np
from . import expr as E
from . import npshim

REPO = os.environ.get("PYQLAW_REPO", "/repo")
LOADED = set()          # source files executed symbolically


class Stub:
    """anything goes, nothing happens"""
    def __init__(self, name="stub"):
        object.__setattr__(self, "_n", name)

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        return Stub(self._n + "." + k)

    def __call__(self, *a, **k):
        return Stub(self._n + "()")

    def __iter__(self):
        return iter(())

    def __repr__(self):
        return f"<{self._n}>"


def _identity_decorator(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        f = a[0]
        try:
            f.py_func = f
        except AttributeError:
            pass
        return f

    def deco(f):
        try:
            f.py_func = f
        except AttributeError:
            pass
        return f
    return deco


class NumbaStub(types.ModuleType):
    def __getattr__(self, k):
        if k in ("njit", "jit", "vectorize", "guvectorize", "generated_jit"):
            return _identity_decorator
        if k == "prange":
            return range
        return Stub("numba." + k)


class StubModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        v = Stub(self.__name__ + "." + k)
        setattr(self, k, v)
        return v


class TqdmModule(types.ModuleType):
    def __getattr__(self, k):
        if k in ("tqdm", "trange"):
            def tqdm(it=None, *a, **kw):
                return it
            return tqdm
        raise AttributeError(k)


class Env:
    """One symbolic copy of pyqlaw."""

    def __init__(self, patches=None, modules=None, extra_builtins=None):
        """patches: {"_integrate": {"rk4": f} or callable(module)}
        modules: replacement top-level modules, e.g. {"spiceypy": obj}"""
        self.patches = patches or {}
        self.replaced = {}
        self.printed = []
        self.files = {}
        self.modules = {
            "numpy": npshim.NP, "numpy.linalg": npshim.NP.linalg, "math": npshim.MATH,
            "numba": NumbaStub("numba"),
        }
        for m in ("matplotlib", "matplotlib.pyplot", "spiceypy", "scipy", "scipy.interpolate",
                  "mpl_toolkits", "matplotlib.gridspec", "scipy.integrate", "scipy.optimize", "scipy.linalg"):
            self.modules[m] = StubModule(m)
        for m in ("tqdm", "tqdm.auto"):
            self.modules[m] = TqdmModule(m)
        self.modules["tqdm"].auto = self.modules["tqdm.auto"]
        self.modules["matplotlib"].pyplot = self.modules["matplotlib.pyplot"]
        self.modules["scipy"].interpolate = self.modules["scipy.interpolate"]
        self.modules.update(modules or {})
        self.bi = dict(vars(builtins))
        self.bi["__import__"] = self._import
        self.bi["float"] = npshim.FloatShim
        self.bi["max"] = npshim.b_max
        self.bi["min"] = npshim.b_min
        self.bi["all"] = npshim.b_all
        self.bi["any"] = npshim.b_any
        self.bi["print"] = lambda *a, **k: None
        self.bi.update(extra_builtins or {})
        self.mods = {}
        self.pkg = "pyqlaw"

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = (globals or {}).get("__package__") or self.pkg
            parts = base.split(".")
            base = ".".join(parts[:len(parts) - (level - 1)])
            full = base + ("." + name if name else "")
            m = self._load(full)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and os.path.exists(self._path(full + "." + f) or ""):
                        setattr(m, f, self._load(full + "." + f))
                return m
            return self._load(base)
        if name.split(".")[0] == self.pkg:
            m = self._load(name)
            return m if fromlist else self._load(self.pkg)
        if name in self.modules:
            if fromlist or "." not in name:
                return self.modules[name]
            top = name.split(".")[0]
            return self.modules.get(top) or self.modules[name]
        top = name.split(".")[0]
        if top in self.modules and top not in ("numpy",):
            return self.modules[top] if not fromlist else StubModule(name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _path(self, full):
        p = os.path.join(REPO, *full.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def _load(self, full):
        if full in self.mods:
            return self.mods[full]
        path = self._path(full)
        if path is None:
            raise ImportError(full)
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if path.endswith("__init__.py") else full.rpartition(".")[0]
        m.__dict__["__builtins__"] = self.bi
        self.mods[full] = m
        par, _, leaf = full.rpartition(".")
        if par and par not in self.mods:
            self._load(par)
            if self.mods.get(full) is not m:
                return self.mods[full]
        with open(path) as fh:
            src = fh.read()
        try:
            exec(compile(src, path, "exec"), m.__dict__)
        except BaseException:
            self.mods.pop(full, None)
            raise
        LOADED.add(path)
        p = self.patches.get(leaf)
        if p:
            if callable(p):
                p(m)
            else:
                for k, v in p.items():
                    self.replaced[leaf + "." + k] = getattr(m, k, None)
                    setattr(m, k, v)
        if par:
            setattr(self.mods[par], leaf, m)
        return m

    def load(self):
        return self._load(self.pkg)

    def sub(self, name):
        return self._load(self.pkg + "." + name)
