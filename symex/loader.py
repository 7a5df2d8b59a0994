"""Execute the repository's current source with symbolic numpy/math/builtins, or plainly."""
import builtins
import io
import os
import pickle
import sys
import types

from . import core, fft, npshim

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = "diffpy.srmise"


def _find(name):
    base = os.path.join(SRC, *name.split("."))
    if os.path.isdir(base):
        return os.path.join(base, "__init__.py"), True
    return base + ".py", False


class _Mods(dict):
    def __init__(self, world):
        super().__init__()
        self.world = world

    def __getitem__(self, k):
        if k in self.world.mods:
            return self.world.mods[k]
        if k in self.world.shims:
            return self.world.shims[k]
        return sys.modules[k]

    def __contains__(self, k):
        return k in self.world.mods or k in sys.modules

    def get(self, k, d=None):
        return self[k] if k in self else d


class SysShim(types.ModuleType):
    def __init__(self, world):
        super().__init__("sys")
        self.modules = _Mods(world)

    def __getattr__(self, k):
        return getattr(sys, k)


class PickleShim(types.ModuleType):
    """pickle of objects that contain symbolic values or belong to the private copy."""

    def __init__(self, world):
        super().__init__("pickle")
        reg = {}

        class Pickler(pickle.Pickler):
            def persistent_id(self, obj):
                if isinstance(obj, (core.SymReal, core.SymBool)):
                    reg[id(obj)] = obj
                    return ("value", id(obj))
                mod = getattr(obj, "__module__", None)
                if isinstance(obj, (type, types.FunctionType)) and mod in world.mods and getattr(world.mods[mod], obj.__qualname__, None) is obj:
                    return ("global", mod, obj.__qualname__)

        class Unpickler(pickle.Unpickler):
            def persistent_load(self, pid):
                if pid[0] == "value":
                    return reg[pid[1]]
                return getattr(world.load(pid[1]), pid[2])
        self.Pickler, self.Unpickler = Pickler, Unpickler

    def __getattr__(self, k):
        return getattr(pickle, k)

    def dump(self, obj, f, *a, **k):
        self.Pickler(f, *a, **k).dump(obj)

    def load(self, f, *a, **k):
        return self.Unpickler(f, *a, **k).load()

    def dumps(self, obj, *a, **k):
        f = io.BytesIO()
        self.dump(obj, f, *a, **k)
        return f.getvalue()

    def loads(self, s, *a, **k):
        return self.load(io.BytesIO(s), *a, **k)


class SymWorld:
    """A private copy of the package whose modules see symbolic numpy."""

    def __init__(self):
        self.mods = {}
        self.files = {}
        self.shims = {"numpy": npshim.shim, "math": npshim.mshim, "sys": SysShim(self), "pickle": PickleShim(self), "scipy.fftpack": fft.FFTPACK, "scipy.fft": fft.SCIPY, "numpy.fft": fft.NUMPY,
                      "scipy": fft.Sub("scipy", {"fft": fft.SCIPY, "fftpack": fft.FFTPACK})}
        self.builtins = dict(npshim.B)
        self.builtins["__import__"] = self._import
        self.builtins["__build_class__"] = builtins.__build_class__

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            parts = pkg.split(".")
            if level > 1:
                parts = parts[: -(level - 1)]
            name = ".".join(parts + ([name] if name else []))
        if name.startswith("scipy.") and not fromlist:
            builtins.__import__(name, globals, locals, fromlist, 0)
            return self.shims["scipy"]
        if name in self.shims and (fromlist or "." not in name):
            return self.shims[name]
        if name.startswith("numpy.") and not fromlist:
            return self.shims["numpy"]
        if name.startswith("numpy."):
            m = self.shims["numpy"]
            for p in name.split(".")[1:]:
                m = getattr(m, p)
            return m
        if name == "diffpy" or name == PKG or name.startswith(PKG + "."):
            leaf = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(leaf, f):
                        sub = name + "." + f
                        p, _ = _find(sub)
                        if os.path.exists(p):
                            self.load(sub)
                return leaf
            return self.load("diffpy")
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name == "diffpy":
            m = types.ModuleType("diffpy")
            m.__path__ = []
            self.mods[name] = m
            return m
        parent = name.rpartition(".")[0]
        pm = self.load(parent)
        if name in self.mods:
            return self.mods[name]
        path, ispkg = _find(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__builtins__ = self.builtins
        with open(path, encoding="utf-8") as f:
            src = f.read()
        self.files[name] = path
        self.mods[name] = m
        try:
            exec(compile(src, path, "exec"), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        setattr(pm, name.rpartition(".")[2], m)
        return m

    def all(self):
        return [m for n, m in self.mods.items() if n.startswith(PKG)]


class RealWorld:
    """The package as a user imports it (from /repo's working tree)."""

    def __init__(self):
        if SRC not in sys.path:
            sys.path.insert(0, SRC)

    def load(self, name):
        import importlib
        m = importlib.import_module(name)
        f = os.path.realpath(getattr(m, "__file__", "") or "")
        if f and not f.startswith(os.path.realpath(SRC) + os.sep):
            raise RuntimeError("%s was imported from %s, not from %s" % (name, f, SRC))
        return m

    def all(self):
        return [m for n, m in list(sys.modules.items())
                if n == PKG or n.startswith(PKG + ".")]


def patch(world, orig, stub):
    """Replace every reference to orig in the package's module globals, and where others define it."""
    undo = []
    # a run within another one, whose stubs are in place
    seen = [orig]
    while getattr(seen[-1], "stub_for", None) is not None:
        seen.append(seen[-1].stub_for)
    orig = seen[-1]
    try:
        if stub is not orig:
            stub.stub_for = orig
    except AttributeError:
        pass
    root = (getattr(orig, "__module__", None) or PKG).split(".")[0]
    outside = [] if root == PKG.split(".")[0] else [m for n, m in list(sys.modules.items()) if n.split(".")[0] == root and isinstance(m, types.ModuleType)]
    for m in world.all() + outside:
        for k, v in list(m.__dict__.items()):
            if any(v is s for s in seen):
                m.__dict__[k] = stub
                undo.append((m, k, v))
    return undo


def unpatch(undo):
    for m, k, v in undo:
        m.__dict__[k] = v
