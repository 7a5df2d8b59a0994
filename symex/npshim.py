"""numpy / math / builtins stand-ins that understand symbolic values.

Arrays are real numpy object arrays (class SArr) so that slicing, broadcasting
and assignment are numpy's own; only element arithmetic, comparisons and the
functions listed here are redirected to the symbolic layer.
"""
import ast
import builtins
import math as _math
import sys
import types

import numpy as np

from . import core, fft
from .core import SymReal, SymBool, sym


def _hassym(a):
    return any(sym(x) for x in a.flat)


def _plain(x):
    return x.view(np.ndarray) if isinstance(x, SArr) else x


def _obj(x):
    """Plain object ndarray of x."""
    if isinstance(x, np.ndarray):
        return _plain(x) if x.dtype == object else _boxed(x)
    if sym(x) or np.isscalar(x) or x is None:
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return _build(x)


def _boxed(a):
    return a.astype(object)


def _build(x):
    r = np.array(_strip(x), dtype=object)
    return r


def _strip(x):
    if isinstance(x, SArr):
        return _plain(x)
    if isinstance(x, (list, tuple)):
        return [_strip(i) for i in x]
    if isinstance(x, (range, types.GeneratorType)):
        return list(x)
    return x


def wrap(r):
    """Object ndarrays become SArr; boolean-only ones plain bool arrays."""
    if isinstance(r, tuple):
        return tuple(wrap(i) for i in r)
    if isinstance(r, list):
        return [wrap(i) for i in r]
    if isinstance(r, np.ndarray) and r.dtype == object:
        return r if isinstance(r, SArr) else r.view(SArr)
    return r


def wrapb(r):
    """Result of a predicate: bool array when every element is concrete."""
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return r.item()
        if not any(isinstance(x, SymBool) for x in r.flat):
            return r.astype(bool).view(np.ndarray)
        return r.view(SArr)
    return r


def _fp(f, n):
    return np.frompyfunc(f, n, 1)


def _lt(a, b): return a < b
def _le(a, b): return a <= b
def _gt(a, b): return a > b
def _ge(a, b): return a >= b
def _eq(a, b): return a == b
def _ne(a, b): return a != b


def _and(a, b):
    if sym(a) or sym(b):
        return core.mkb(core.z3.And(core.bexpr(a), core.bexpr(b)))
    return bool(a) and bool(b)


def _or(a, b):
    if sym(a) or sym(b):
        return core.mkb(core.z3.Or(core.bexpr(a), core.bexpr(b)))
    return bool(a) or bool(b)


def _xor(a, b):
    if sym(a) or sym(b):
        return core.mkb(core.z3.Xor(core.bexpr(a), core.bexpr(b)))
    return bool(a) != bool(b)


def _not(a):
    if sym(a):
        return core.mkb(core.z3.Not(core.bexpr(a)))
    return not a


def _isnan(x):
    return False if sym(x) else (x != x)


def _isinf(x):
    return False if sym(x) else bool(np.isinf(x))


def _isfinite(x):
    return True if sym(x) else bool(np.isfinite(x))


def _sign(x):
    if not sym(x):
        return np.sign(x)
    if isinstance(x, SymReal) and x.e.num_args() == 0:
        if core.CTX.known(x.e > 0):
            return np.float64(1.0)
        if core.CTX.known(x.e < 0):
            return np.float64(-1.0)
    return core.ite(x > 0, 1.0, core.ite(x < 0, -1.0, 0.0))


def _abs(x):
    return abs(x)


def _square(x):
    return x * x


def _div(a, b):
    if sym(a) or sym(b):
        return core.div(a, b)
    with np.errstate(all="ignore"):
        return np.true_divide(a, b)


def _pow(a, b):
    if sym(a) or sym(b):
        return core.power(a, b)
    return np.power(a, b)


def _exp(x): return core.exp(x) if sym(x) else np.exp(x)
def _log(x): return core.log(x)
def _sqrt(x):
    if sym(x):
        return core.sqrt(x)
    r = np.sqrt(x)
    if core.is_special(r) or core.Fraction(repr(float(r))) ** 2 == core.Fraction(repr(float(x))):
        return r
    return core.sqrt(SymReal(core.q(x)))
def _sin(x): return core.sin(x) if sym(x) else (np.sin(x) if x == 0 or core.is_special(x) else core.sin(SymReal(core.q(x))))
def _cos(x): return core.cos(x) if sym(x) else (np.cos(x) if x == 0 or core.is_special(x) else core.cos(SymReal(core.q(x))))
def _tan(x):
    return _div(_sin(x), _cos(x))
def _arcsin(x): return core.arcsin(x) if sym(x) else np.arcsin(x)
def _log2(x): return _div(_log(x), core.log_const(2))
def _log10(x): return _div(_log(x), core.log_const(10))
def _exp2(x): return core.exp(x * core.log_const(2))


def _floor(x): return core.floor(x) if sym(x) else np.floor(x)
def _ceil(x): return core.ceil(x) if sym(x) else np.ceil(x)
def _round0(x): return round(x, 0) if sym(x) else np.round(x)
def _trunc(x):
    if not sym(x):
        return np.trunc(x)
    return core.ite(x >= 0, _floor(x), -_floor(-x))


def _mod(a, b): return a % b if (sym(a) or sym(b)) else np.mod(a, b)
def _floordiv(a, b): return a // b if (sym(a) or sym(b)) else np.floor_divide(a, b)
def _hypot(a, b): return _sqrt(a * a + b * b)


def _sinc(x):
    if not sym(x):
        if x == 0:
            return 1.0
    p = core.pi()
    if sym(x):
        try:
            n, m = core.canon(x.e)
            if m is not None and not (set(n) - {()}):
                x = n.get((), 0)
                x = float(x) if x != 0 else 0
                if x == 0 or (x == int(x)):
                    return 1.0 if x == 0 else 0.0
                x = core.mk(core.q(n[()]))
        except core.TooBig:
            pass
    elif x == int(x):
        return 0.0
    y = p * x
    if bool(y == 0):
        return 1.0
    return core.div(_sin(y), y)


PRED = {"less": _lt, "less_equal": _le, "greater": _gt, "greater_equal": _ge,
        "equal": _eq, "not_equal": _ne, "logical_and": _and, "logical_or": _or,
        "logical_xor": _xor, "bitwise_and": _and, "bitwise_or": _or, "bitwise_xor": _xor}
PRED1 = {"logical_not": _not, "invert": _not, "isnan": _isnan, "isinf": _isinf,
         "isfinite": _isfinite}
FUN1 = {"absolute": _abs, "fabs": _abs, "sign": _sign, "sqrt": _sqrt, "exp": _exp, "log": _log,
        "sin": _sin, "cos": _cos, "tan": _tan, "arcsin": _arcsin, "floor": _floor,
        "ceil": _ceil, "rint": _round0, "trunc": _trunc, "square": _square,
        "log2": _log2, "log10": _log10, "exp2": _exp2,
        "expm1": lambda x: _exp(x) - 1, "log1p": lambda x: _log(1 + x),
        "conjugate": lambda x: x, "negative": lambda x: -x, "positive": lambda x: x,
        "reciprocal": lambda x: _div(1.0, x), "deg2rad": lambda x: x * core.pi() / 180,
        "radians": lambda x: x * core.pi() / 180}
FUN2 = {"maximum": core.smax, "minimum": core.smin, "fmax": core.smax, "fmin": core.smin,
        "true_divide": _div, "divide": _div, "power": _pow, "float_power": _pow,
        "mod": _mod, "remainder": _mod, "floor_divide": _floordiv, "hypot": _hypot}


def _reduce(f, a, axis=None, initial=None, keepdims=False, empty=None):
    a = _obj(a)
    if axis is None:
        items = list(a.flat)
        r = initial
        for x in items:
            r = x if r is None else f(r, x)
        if r is None:
            if empty is None:
                raise ValueError("zero-size array to reduction operation has no identity")
            r = empty
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return o
        return r
    if isinstance(axis, tuple):
        raise core.EngineLimit("tuple axis")
    a2 = np.moveaxis(a, axis, -1)
    out = np.empty(a2.shape[:-1], dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = _reduce(f, a2[idx], None, initial, False, empty)
    if keepdims:
        out = np.expand_dims(out, axis)
    return out if out.ndim else out.item()


class SArr(np.ndarray):
    """Object ndarray holding symbolic values."""

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        out = kw.pop("out", None)
        where = kw.pop("where", True)
        kw.pop("dtype", None)
        kw.pop("casting", None)
        kw.pop("subok", None)
        if method == "__call__":
            ins = [_obj(i) for i in inputs]
            if name in PRED:
                r = wrapb(_call(PRED[name], ins))
            elif name in PRED1:
                r = wrapb(_call(PRED1[name], ins))
            elif name in FUN1:
                r = _call(FUN1[name], ins)
            elif name in FUN2:
                r = _call(FUN2[name], ins)
            elif name in ("add", "subtract", "multiply", "matmul", "clip"):
                r = ufunc(*ins, **kw)
            elif ufunc.types and "O->O" in ufunc.types or "OO->O" in ufunc.types:
                r = ufunc(*ins, **kw)
            else:
                raise core.EngineLimit("ufunc %s" % name)
            if where is not True:
                old = out[0] if out is not None else np.zeros(np.shape(r), dtype=object)
                r = np_where(where, r, old)
            if out is not None:
                o = out[0]
                if o.dtype == object:
                    _plain(o)[...] = r
                elif o.dtype == bool:
                    o[...] = r
                else:
                    _assign_float(o, r)
                return o
            if isinstance(r, np.ndarray) and r.ndim == 0 and r.dtype == object:
                return r.item()
            return wrap(r)
        if method == "reduce":
            a = _obj(inputs[0])
            axis = kw.get("axis", inputs[1] if len(inputs) > 1 else 0)
            init = kw.get("initial", None)
            if init is np._NoValue:
                init = None
            kd = bool(kw.get("keepdims", False))
            if where is not True:
                raise core.EngineLimit("reduce where")
            tab = {"maximum": (core.smax, None), "minimum": (core.smin, None),
                   "fmax": (core.smax, None), "fmin": (core.smin, None),
                   "logical_and": (_and, True), "logical_or": (_or, False),
                   "bitwise_and": (_and, True), "bitwise_or": (_or, False),
                   "add": (lambda x, y: x + y, 0), "multiply": (lambda x, y: x * y, 1)}
            if name not in tab:
                raise core.EngineLimit("reduce %s" % name)
            f, e = tab[name]
            r = _reduce(f, a, axis, init, kd, e)
            if name.startswith(("logical", "bitwise")):
                r = wrapb(r) if isinstance(r, np.ndarray) else r
            if out is not None:
                out[0][...] = r
                return out[0]
            return wrap(r)
        if method == "outer":
            a, b = _obj(inputs[0]), _obj(inputs[1])
            return self.__array_ufunc__(ufunc, "__call__",
                                        wrap(a.reshape(a.shape + (1,) * b.ndim)), b, **kw)
        if method in ("accumulate", "reduceat"):
            tab = {"maximum": core.smax, "minimum": core.smin}
            if name in tab:
                uf = _fp(tab[name], 2)
                return wrap(getattr(uf, method)(*[_obj(i) for i in inputs[:1]], **kw))
            return wrap(getattr(ufunc, method)(_obj(inputs[0]), *inputs[1:], **kw))
        if method == "at":
            a = inputs[0]
            getattr(ufunc, method)(_plain(a), *[conc(i) for i in inputs[1:2]],
                                   *[_obj(i) for i in inputs[2:]])
            return None
        raise core.EngineLimit("ufunc method %s.%s" % (name, method))

    def __array_function__(self, func, types_, args, kwargs):
        over = _FUNC_OVERRIDE.get(func)
        if over is not None:
            return over(*args, **kwargs)
        return wrap(super().__array_function__(func, types_, args, kwargs))

    # -- indexing
    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, conc(key))
        return r

    def __setitem__(self, key, val):
        if isinstance(key, SArr) and key.shape == self.shape and \
                any(isinstance(k, SymBool) for k in key.flat) and \
                (np.isscalar(val) or sym(val) or np.shape(val) == ()):
            p = _plain(self)
            p[...] = _obj(np_where(key, val, self))
            return
        np.ndarray.__setitem__(self, conc(key), val if not isinstance(val, SArr) else _plain(val))

    def __bool__(self):
        if self.size == 1:
            return bool(self.flat[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. "
                         "Use a.any() or a.all()")

    def __float__(self):
        if self.size == 1:
            return float(self.flat[0])
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    # -- methods
    def max(self, axis=None, out=None, keepdims=False, **k):
        return wrap(_reduce(core.smax, self, axis, k.get("initial"), keepdims))

    def min(self, axis=None, out=None, keepdims=False, **k):
        return wrap(_reduce(core.smin, self, axis, k.get("initial"), keepdims))

    def all(self, axis=None, out=None, keepdims=False, **k):
        r = _reduce(_and, self, axis, True, keepdims)
        return wrapb(r) if isinstance(r, np.ndarray) else r

    def any(self, axis=None, out=None, keepdims=False, **k):
        r = _reduce(_or, self, axis, False, keepdims)
        return wrapb(r) if isinstance(r, np.ndarray) else r

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        r = _reduce(lambda x, y: x + y, self, axis, k.get("initial"), keepdims, 0)
        return wrap(r) if not isinstance(r, SymBool) else r._r()

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return wrap(_reduce(lambda x, y: x * y, self, axis, None, keepdims, 1))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        s = self.sum(axis, keepdims=keepdims)
        n = self.size if axis is None else self.shape[axis]
        if n == 0:
            return np.nan
        return s / n

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        m = self.mean(axis, keepdims=True) if axis is not None else self.mean()
        d = self - m
        s = (d * d).sum(axis, keepdims=keepdims)
        n = (self.size if axis is None else self.shape[axis]) - ddof
        return s / n if n else np.nan

    def std(self, *a, **k):
        return np_sqrt(self.var(*a, **k))

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def round(self, decimals=0, out=None):
        if decimals:
            raise core.EngineLimit("round decimals")
        return wrap(_call(_round0, [_plain(self)]))

    def clip(self, min=None, max=None, out=None, **k):
        return np_clip(self, min, max, out)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return _argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, **k):
        if self.ndim > 1:
            raise core.EngineLimit("sort of a matrix")
        p = _plain(self)
        p[...] = p[np.asarray(_argsort(self, -1))]

    def argmax(self, axis=None, out=None, **k):
        return _arg(self, axis, lambda a, b: a > b)

    def argmin(self, axis=None, out=None, **k):
        return _arg(self, axis, lambda a, b: a < b)

    def searchsorted(self, v, side="left", sorter=None):
        return np_searchsorted(self, v, side, sorter)

    def nonzero(self):
        return tuple(np.nonzero(concbool(self)))

    def astype(self, dtype, *a, **k):
        return cast(self, dtype)

    def dot(self, b, out=None):
        return np_dot(self, b)

    def tolist(self):
        return _plain(self).tolist()

    def cumsum(self, axis=None, dtype=None, out=None):
        return wrap(np.add.accumulate(_plain(self) if axis is not None else _plain(self).ravel(), axis or 0))

    def tobytes(self, *a):
        raise core.EngineLimit("tobytes")


def _call(f, ins):
    uf = _fp(f, len(ins))
    r = uf(*ins)
    if not isinstance(r, np.ndarray):
        return r
    return r


def _assign_float(o, r):
    rr = _obj(r)
    for idx in np.ndindex(*o.shape):
        v = rr[idx] if rr.ndim else rr.item()
        o[idx] = float(v)


def conc(key):
    """Make an index concrete (forking where it is symbolic)."""
    if isinstance(key, tuple):
        return tuple(conc(k) for k in key)
    if isinstance(key, list):
        if any(sym(k) for k in key):
            return [conc(k) for k in key]
        return key
    if isinstance(key, SymBool):
        return bool(key)
    if isinstance(key, SymReal):
        return key.__index__()
    if isinstance(key, np.ndarray) and key.dtype == object:
        fl = list(key.flat)
        if fl and all(isinstance(k, (bool, np.bool_, SymBool)) for k in fl):
            return concbool(key)
        return np.array([int(conc(k)) if not isinstance(k, float) else _badidx() for k in fl],
                        dtype=int).reshape(key.shape)
    return key


def _badidx():
    raise IndexError("arrays used as indices must be of integer (or boolean) type")


def concbool(a):
    a = _obj(a)
    return np.array([bool(x) for x in a.flat], dtype=bool).reshape(a.shape)


def _argsort(a, axis=-1):
    """Stable order, decided by forking on each comparison."""
    a = _obj(a)
    if a.ndim == 0:
        return np.array([0])
    if a.ndim > 1:
        if axis in (-1, a.ndim - 1):
            return np.array([_argsort(r) for r in a])
        raise core.EngineLimit("argsort axis")
    items = list(a)
    order = []
    for i, x in enumerate(items):    # insertion by binary search, equal elements after
        if core.is_special(x) and x != x:
            order.append(i)
            continue
        lo, hi = 0, len(order)
        while lo < hi:
            mid = (lo + hi) // 2
            y = items[order[mid]]
            if bool(x < y) or (core.is_special(y) and y != y):
                hi = mid
            else:
                lo = mid + 1
        order.insert(lo, i)
    return np.array(order, dtype=int)


def _arg(a, axis, better):
    a = _obj(a)
    if axis is not None and a.ndim > 1:
        a2 = np.moveaxis(a, axis, -1)
        out = np.empty(a2.shape[:-1], dtype=int)
        for idx in np.ndindex(*out.shape):
            out[idx] = _arg(a2[idx], None, better)
        return out
    items = list(a.flat)
    if not items:
        raise ValueError("attempt to get argmax of an empty sequence")
    best = 0
    for i in range(len(items)):
        if core.is_special(items[i]) and items[i] != items[i]:
            return np.int64(i)
        if i and bool(better(items[i], items[best])):
            best = i
    return np.int64(best)


# -- dtype handling -----------------------------------------------------------------------
def _isfloatdt(dt):
    if dt is None:
        return True
    if isinstance(dt, type) and issubclass(dt, symint):
        return False
    if isinstance(dt, type) and issubclass(dt, symfloat):
        return True
    try:
        return np.dtype(dt).kind in "fO" or np.dtype(dt).kind == "c"
    except TypeError:
        return False


def realdt(dt):
    if dt is symfloat:
        return float
    if dt is symint:
        return int
    return dt


def cast_scalar(x, dt):
    dt = realdt(dt)
    k = np.dtype(dt).kind
    if k == "f":
        return SymReal(x.e, "f") if isinstance(x, SymReal) else x
    if k in "iu":
        return int(x)
    if k == "b":
        return bool(x != 0)
    return x


def cast(a, dt):
    dt = realdt(dt)
    k = np.dtype(dt).kind
    a = _plain(a)
    if k in "fO":
        r = a.copy()
        if k == "f":
            for idx in np.ndindex(*r.shape):
                r[idx] = tofloat(r[idx])
        return r.view(SArr)
    if k in "iu":
        return np.array([int(x) for x in a.flat], dtype=int).reshape(a.shape)
    if k == "b":
        return concbool(a)
    if k == "c":
        return a.copy().view(SArr)
    if k in "US":
        return np.array([str(x) for x in a.flat]).reshape(a.shape)
    raise core.EngineLimit("astype %r" % dt)


def tofloat(x):
    if isinstance(x, SymReal):
        return x if x.kind == "f" else SymReal(x.e, "f")
    if isinstance(x, SymBool):
        return SymReal(core.lift(x), "f")
    if isinstance(x, str):
        return parse_float(x)
    if isinstance(x, core.Fraction):
        return SymReal(core.q(x))
    if x is None:
        return float("nan")
    return np.float64(x)


def parse_float(s):
    f = float(s)
    if not core.SENTINELS:
        return f
    t = core.fromtext(s if isinstance(s, str) else s.decode(), f)
    return f if t is None else t


class _Numbers(ast.NodeTransformer):
    """Printed symbolic numbers in an expression back to what they stand for."""

    def __init__(self):
        self.names = {}
        self.text = ""

    def visit_Constant(self, node):
        if isinstance(node.value, builtins.float):
            t = core.fromtext(ast.get_source_segment(self.text, node) or repr(node.value), node.value)
            if t is not None:
                n = "__number%d" % len(self.names)
                self.names[n] = t
                return ast.copy_location(ast.Name(n, ast.Load()), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        return node


def sym_eval(src, globals=None, locals=None):
    fr = sys._getframe(1)
    if globals is None:
        globals = fr.f_globals
        locals = dict(fr.f_locals) if locals is None else locals
    if not isinstance(src, str) or not core.SENTINELS:
        return builtins.eval(src, globals, locals)
    src = src.strip(" \t")
    tr = _Numbers()
    tr.text = src
    tree = ast.fix_missing_locations(tr.visit(ast.parse(src, mode="eval")))
    if not tr.names:
        return builtins.eval(src, globals, locals)
    loc = dict(locals or {})
    loc.update(tr.names)
    return builtins.eval(compile(tree, "<eval>", "eval"), globals, loc)


# -- numpy functions ------------------------------------------------------------------------
def np_array(obj, dtype=None, copy=True, ndmin=0, order=None, subok=False, **k):
    if isinstance(obj, np.ndarray) and obj.dtype != object:
        if dtype is None:
            if obj.dtype.kind == "f":
                return np.array(obj, ndmin=ndmin).astype(object).view(SArr)
            return np.array(obj, ndmin=ndmin)
        dt = realdt(dtype)
        if np.dtype(dt).kind == "f":
            return np.array(obj, dtype=float, ndmin=ndmin).astype(object).view(SArr)
        return np.array(obj, dtype=dt, ndmin=ndmin)
    if isinstance(obj, np.ndarray):
        r = _plain(obj)
        r = r.copy() if copy else r
    else:
        if isinstance(obj, (types.GeneratorType, map, filter, zip)):
            a = np.empty((), dtype=object)
            a[()] = obj
            return a
        obj = _listify(obj)
        probe = np.array(obj, dtype=object) if not _ragged(obj) else None
        if probe is None:
            np.array(obj)     # numpy's own error for inhomogeneous shapes
            raise ValueError("setting an array element with a sequence. The requested array has "
                             "an inhomogeneous shape")
        fl = list(probe.flat)
        if dtype is None and not any(sym(x) for x in fl):
            nat = np.array(obj)
            if nat.dtype.kind != "f":
                if ndmin:
                    nat = np.array(nat, ndmin=ndmin)
                return nat if nat.dtype != object else nat.view(SArr)
            r = _obj(nat.astype(object)) if nat.size else np.array(nat, dtype=object)
        elif dtype is None and fl and all(isinstance(x, (SymBool, bool, np.bool_)) for x in fl):
            r = probe
        else:
            r = probe
            if dtype is None:
                for idx in np.ndindex(*r.shape):
                    if isinstance(r[idx], (int, float, np.number, SymReal)) and any(
                            isinstance(y, (float, np.floating)) or (isinstance(y, SymReal) and y.kind == "f")
                            for y in fl):
                        r[idx] = tofloat(r[idx])
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    if dtype is not None:
        return cast(r, dtype)
    return r.view(SArr)


def _listify(x):
    if isinstance(x, SArr):
        return [_listify(i) for i in x] if x.ndim else x.item()
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, range):
        return list(x)
    if isinstance(x, (list, tuple)):
        return [_listify(i) for i in x]
    return x


def _ragged(x):
    def shp(v):
        if isinstance(v, np.ndarray):
            return v.shape
        if isinstance(v, (list, tuple)):
            ss = [shp(i) for i in v]
            if not ss:
                return (0,)
            if any(s is None or s != ss[0] for s in ss):
                return None
            return (len(v),) + ss[0]
        return ()
    return shp(x) is None


def np_asarray(a, dtype=None, **k):
    if isinstance(a, np.ndarray) and dtype is None:
        return a
    if isinstance(a, SArr) and _isfloatdt(dtype):
        return a
    return np_array(a, dtype)


def _filled(shape, v):
    shape = conc(shape) if not isinstance(shape, (int, np.integer)) else shape
    r = np.empty(shape, dtype=object)
    r[...] = v
    return r.view(SArr)


def np_zeros(shape, dtype=float, order="C", **k):
    return _filled(shape, 0.0) if _isfloatdt(dtype) else np.zeros(conc(shape), dtype=realdt(dtype))


def np_ones(shape, dtype=None, order="C", **k):
    return _filled(shape, 1.0) if _isfloatdt(dtype) else np.ones(conc(shape), dtype=realdt(dtype))


def np_empty(shape, dtype=float, order="C", **k):
    return _filled(shape, float("nan")) if _isfloatdt(dtype) else np.zeros(conc(shape), dtype=realdt(dtype))


def np_full(shape, v, dtype=None, **k):
    if dtype is None and isinstance(v, (bool, np.bool_, int, np.integer)):
        return np.full(conc(shape), v)
    if _isfloatdt(dtype):
        return _filled(shape, v)
    return np.full(conc(shape), v, dtype=realdt(dtype))


def _likedt(a, dtype):
    if dtype is not None:
        return dtype
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            return a.dtype
        fl = list(a.flat)
        if fl and all(isinstance(x, (bool, np.bool_, SymBool)) for x in fl):
            return bool
        return float
    b = np_array(a)
    return b.dtype if b.dtype != object else float


def np_zeros_like(a, dtype=None, **k): return np_zeros(np.shape(a), _likedt(a, dtype))
def np_ones_like(a, dtype=None, **k): return np_ones(np.shape(a), _likedt(a, dtype))
def np_empty_like(a, dtype=None, **k): return np_empty(np.shape(a), _likedt(a, dtype))
def np_full_like(a, v, dtype=None, **k): return np_full(np.shape(a), v, _likedt(a, dtype))


def np_eye(n, m=None, k=0, dtype=float, **kw):
    return np.eye(n, m, k).astype(object).view(SArr) if _isfloatdt(dtype) else np.eye(n, m, k, realdt(dtype))


def np_diag(v, k=0):
    v = np_asarray(v)
    if v.ndim == 1 and v.dtype == object:
        n = len(v) + abs(k)
        r = np.empty((n, n), dtype=object)
        r[...] = 0.0
        for i, x in enumerate(v):
            r[i + max(-k, 0), i + max(k, 0)] = x
        return r.view(SArr)
    return wrap(np.diag(_plain(v), k))


def np_where(c, a=None, b=None):
    if a is None and b is None:
        return np.where(concbool(c))
    c2, a2, b2 = np.broadcast_arrays(_obj(c), _obj(a), _obj(b))
    r = np.empty(c2.shape, dtype=object)
    for idx in np.ndindex(*c2.shape):
        r[idx] = core.ite(_tb(c2[idx]), a2[idx], b2[idx])
    if r.ndim == 0:
        return r.item() if False else r.view(SArr)
    return r.view(SArr)


def _tb(x):
    if isinstance(x, SymReal):
        return core.mkb(x.e != 0)
    return x


def np_nonzero(a): return np.nonzero(concbool_num(a))
def concbool_num(a):
    a = _obj(a)
    return np.array([bool(x != 0) if not isinstance(x, SymBool) else bool(x) for x in a.flat],
                    dtype=bool).reshape(a.shape)


def np_all(a, axis=None, out=None, keepdims=False, **k):
    r = _reduce(_and, _asobj(a), axis, True, keepdims)
    return wrapb(r) if isinstance(r, np.ndarray) else _npb(r)


def np_any(a, axis=None, out=None, keepdims=False, **k):
    r = _reduce(_or, _asobj(a), axis, False, keepdims)
    return wrapb(r) if isinstance(r, np.ndarray) else _npb(r)


def _npb(r):
    return r if sym(r) else np.bool_(r)


def _asobj(a):
    return _obj(np_array(a) if not isinstance(a, np.ndarray) else a)


def _amethod(name):
    real = getattr(np, name, None)

    def f(a, *args, **k):
        if sym(a):
            return getattr(a, name)() if hasattr(a, name) else a
        b = a if isinstance(a, np.ndarray) else np_array(a)
        if isinstance(b, SArr):
            return getattr(b, name)(*args, **k)
        return real(b, *args, **k)
    f.__name__ = name
    return f


def np_clip(a, lo=None, hi=None, out=None, **k):
    lo = k.get("min", k.get("a_min", lo))
    hi = k.get("max", k.get("a_max", hi))
    r = a if isinstance(a, np.ndarray) or sym(a) else np_array(a)
    if lo is not None:
        r = np_maximum(r, lo)
    if hi is not None:
        r = np_minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def np_sort(a, axis=-1, **k):
    if isinstance(a, (set, dict, type({}.keys()))):
        return np.sort(a)    # numpy's own behaviour
    a = np_array(a)
    if not isinstance(a, SArr):
        return np.sort(a, axis)
    if a.ndim == 1:
        return a[_argsort(a)]
    out = a.copy()
    p = np.moveaxis(_plain(out), axis, -1)
    for idx in np.ndindex(*p.shape[:-1]):
        p[idx] = p[idx][_argsort(p[idx])]
    return out


def np_argsort(a, axis=-1, **k):
    a = np_asarray(a)
    return _argsort(a, axis) if isinstance(a, SArr) else np.argsort(a, axis)


def np_searchsorted(a, v, side="left", sorter=None):
    a = np_asarray(a)
    if not isinstance(a, SArr) and not sym(v) and not isinstance(v, SArr):
        return np.searchsorted(a, v, side, sorter)
    a = _obj(a)
    if sorter is not None:
        a = a[np.asarray(conc(sorter))]
    items = list(a)

    def one(x):
        lo, hi = 0, len(items)
        while lo < hi:
            mid = (lo + hi) // 2
            c = (items[mid] < x) if side == "left" else (items[mid] <= x)
            if bool(c):
                lo = mid + 1
            else:
                hi = mid
        return lo
    if isinstance(v, np.ndarray) and v.ndim or isinstance(v, (list, tuple)):
        vv = _asobj(v)
        return np.array([one(x) for x in vv.flat], dtype=int).reshape(vv.shape)
    return np.int64(one(v if not isinstance(v, np.ndarray) else v.item()))


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = np_asarray(a)
    if not isinstance(a, SArr):
        return np.unique(a, return_index, return_inverse, return_counts, axis)
    if axis is not None:
        if axis != 0 or a.ndim != 2:
            raise core.EngineLimit("unique axis")
        return _unique_rows(_obj(a))
    f = _obj(a).ravel()
    order = _argsort(f)
    vals, first, cnt, inv = [], [], [], np.zeros(len(f), dtype=int)
    for i in order:
        if vals and bool(f[i] == vals[-1]):
            cnt[-1] += 1
        else:
            vals.append(f[i]); first.append(i); cnt.append(1)
        inv[i] = len(vals) - 1
    v = np.empty(len(vals), dtype=object)
    v[:] = vals
    r = (v.view(SArr),)
    if return_index: r += (np.array(first, dtype=int),)
    if return_inverse: r += (inv,)
    if return_counts: r += (np.array(cnt, dtype=int),)
    return r[0] if len(r) == 1 else r


def _unique_rows(a):
    out = []

    def cmp(p, q):
        for x, y in zip(p, q):
            if bool(x < y):
                return -1
            if not bool(x == y):
                return 1
        return 0
    for row in a:
        lo = 0
        dup = False
        for lo in range(len(out) + 1):
            if lo == len(out):
                break
            c = cmp(row, out[lo])
            if c == 0:
                dup = True
                break
            if c < 0:
                break
        if not dup:
            out.insert(lo, row)
    r = np.empty((len(out), a.shape[1]), dtype=object)
    for i, row in enumerate(out):
        r[i] = row
    return r.view(SArr)


def np_array_equal(a, b, **k):
    try:
        a, b = np_asarray(a), np_asarray(b)
    except Exception:
        return False
    if a.shape != b.shape:
        return False
    if not isinstance(a, SArr) and not isinstance(b, SArr):
        return bool(np.array_equal(a, b))
    r = True
    for x, y in zip(_obj(a).flat, _obj(b).flat):
        r = _and(r, x == y)
    return r


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = _obj(a), _obj(b)

    def f(x, y):
        if core.is_special(x) or core.is_special(y):
            return (x == y) if not (x != x and y != y) else equal_nan
        return abs(x - y) <= atol + rtol * abs(y)
    return wrapb(_call(f, [a, b]))


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np_all(np_isclose(a, b, rtol, atol, equal_nan))


def np_dot(a, b, out=None):
    a, b = np_asarray(a), np_asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return wrap(np.dot(_obj(a), _obj(b)))


def np_outer(a, b):
    a, b = _asobj(a).ravel(), _asobj(b).ravel()
    return wrap(np.multiply(a[:, None], b[None, :]))


def np_interp(x, xp, fp, left=None, right=None, period=None):
    xs = _asobj(x)
    xp = list(_asobj(xp))
    fp = list(_asobj(fp))

    def one(v):
        if bool(v < xp[0]):
            return fp[0] if left is None else left
        if bool(v > xp[-1]):
            return fp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if bool(v < xp[i + 1]):
                if bool(v == xp[i]):
                    return fp[i]
                return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])
        return fp[-1]
    if xs.ndim == 0:
        return one(xs.item())
    r = np.empty(xs.shape, dtype=object)
    for idx in np.ndindex(*xs.shape):
        r[idx] = one(xs[idx])
    return r.view(SArr)


def _cint(n):
    if sym(n):
        return n.__index__()
    return n


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = _cint(num)
    if not isinstance(num, (int, np.integer)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if num < 0:
        raise ValueError("Number of samples, %s, must be non-negative." % num)
    d = num - 1 if endpoint else num
    step = (stop - start) / d if d > 0 else float("nan")
    r = np.empty(num, dtype=object)
    for i in range(num):
        r[i] = start + step * i if d > 0 else start
    if endpoint and num > 1:
        r[-1] = stop
    for i in range(num):
        r[i] = tofloat(r[i])
    r = r.view(SArr)
    return (r, step) if retstep else r


def np_arange(*args, **k):
    dt = k.get("dtype")
    if not any(sym(a) for a in args):
        r = np.arange(*args, **{kk: realdt(v) for kk, v in k.items()})
        return r.astype(object).view(SArr) if r.dtype.kind == "f" else r
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        (start, stop), step = args, 1
    else:
        start, stop, step = args
    n = core.ceil(core.div(stop - start, step)) if sym(stop - start) or sym(step) else np.ceil((stop - start) / step)
    n = int(n)
    n = max(n, 0)
    if n > 200:
        raise core.EngineLimit("arange too long")
    r = np.empty(n, dtype=object)
    for i in range(n):
        r[i] = start + step * i
    return r.view(SArr)


def np_cumsum(a, axis=None, **k):
    a = np_asarray(a)
    if not isinstance(a, SArr):
        return np.cumsum(a, axis)
    return a.cumsum(axis)


def np_count_nonzero(a, axis=None, **k):
    a = np_asarray(a)
    if not isinstance(a, SArr):
        return np.count_nonzero(a, axis)
    return int(concbool_num(a).sum())


def np_nansum(a, *r, **k): return np_sum(a, *r, **k)


def np_isscalar(x): return sym(x) or np.isscalar(x)


def np_average(a, axis=None, weights=None, **k):
    a = np_asarray(a)
    if weights is None:
        return a.mean(axis)
    w = np_asarray(weights)
    return (a * w).sum(axis) / w.sum(axis)


def np_diff(a, n=1, axis=-1, **k):
    return wrap(np.diff(_asobj(a), n, axis)) if isinstance(np_asarray(a), SArr) else np.diff(a, n, axis)


def np_trapz(y, x=None, dx=1.0, axis=-1):
    y = np_asarray(y)
    d = dx if x is None else np_diff(np_asarray(x))
    return (d * (y[1:] + y[:-1]) / 2.0).sum()


def np_polyval(p, x):
    p = np_asarray(p)
    y = np_zeros_like(np_asarray(x), dtype=float) if isinstance(x, np.ndarray) else 0.0
    for pv in p:
        y = y * x + pv
    return y


def np_vander(x, N=None, increasing=False):
    x = np_asarray(x)
    n = len(x) if N is None else N
    cols = [x ** i for i in range(n)]
    if not increasing:
        cols = cols[::-1]
    return wrap(np.array([[_obj(c)[i] for c in cols] for i in range(len(x))], dtype=object))


def np_isin(a, b, **k):
    a, b = _asobj(a), _asobj(b)

    def f(x):
        r = False
        for y in b.flat:
            r = _or(r, x == y)
        return r
    return wrapb(_call(f, [a]))


def np_piecewise(x, condlist, funclist, *a, **k):
    raise core.EngineLimit("piecewise")


def np_select(condlist, choicelist, default=0):
    r = default
    for c, v in list(zip(condlist, choicelist))[::-1]:
        r = np_where(c, v, r)
    return r


def np_loadtxt(*a, **k):
    k = dict(k)
    if "dtype" in k:
        k["dtype"] = realdt(k["dtype"])
    r = np.loadtxt(*a, **k)
    return decode(r)


def decode(r):
    """Sentinel floats back to the symbolic values they stand for."""
    if isinstance(r, tuple):
        return tuple(decode(i) for i in r)
    o = np.array(r, dtype=object)
    for idx in np.ndindex(*o.shape):
        o[idx] = core.SENTINELS.get(float(o[idx]), np.float64(o[idx]))
    return o.view(SArr)


def np_float64(x=0.0, *a):
    if isinstance(x, (np.ndarray, list, tuple)):
        return cast(np_asarray(x), float)
    return tofloat(x)


def _uf(name):
    real = getattr(np, name)
    name = real.__name__

    def f(*args, **k):
        # scalars and lists
        if any(isinstance(a, SArr) for a in args) or any(
                isinstance(a, np.ndarray) and a.dtype == object for a in args):
            return real(*[_up(a) for a in args], **k)
        n = real.nin
        ins = args[:n]
        hs = any(sym(a) for a in ins) or any(isinstance(a, (list, tuple)) for a in ins)
        if not hs:
            if name in ("sqrt", "exp", "sin", "cos", "log", "arcsin", "tan") or "out" in k:
                if all(np.isscalar(a) for a in ins):
                    return FUN1[name](*ins)
                if name != "arcsin" and isinstance(ins[0], np.ndarray) and ins[0].dtype.kind in "fi":
                    return wrap(_call(FUN1[name], [_obj(ins[0])]))
            return real(*args, **k)
        a2 = [np_array(a) if isinstance(a, (list, tuple)) else a for a in ins]
        if any(isinstance(a, np.ndarray) and a.ndim for a in a2):
            return real(*[_up(a) for a in a2], *args[n:], **k)
        for tab in (PRED, PRED1, FUN1, FUN2):
            if name in tab:
                return tab[name](*a2)
        ops = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b}
        return ops[name](*a2)
    f.__name__ = name
    return _UF(f, real)


def _up(a):
    if isinstance(a, np.ndarray) and not isinstance(a, SArr):
        return a.astype(object).view(SArr)
    if isinstance(a, (list, tuple)):
        return np_array(a).astype(object).view(SArr)
    return a


class _UF:
    """Callable with the ufunc methods."""

    def __init__(self, f, real):
        self._f, self._real = f, real

    def __call__(self, *a, **k):
        return self._f(*a, **k)

    def __getattr__(self, n):
        m = getattr(self._real, n)
        if not callable(m):
            return m

        def g(a, *r, **k):
            return m(_up(a) if not sym(a) else a, *r, **k)
        return g


def _wrapfun(real):
    def f(*a, **k):
        if "dtype" in k:
            k["dtype"] = realdt(k["dtype"])
            if k["dtype"] is float and any(_deepsym(x) for x in a):
                k["dtype"] = object
        a2 = [_fixarg(x) for x in a]
        return wrap(real(*a2, **{kk: _fixarg(v) for kk, v in k.items()}))
    f.__name__ = getattr(real, "__name__", "f")
    return f


def _deepsym(x):
    if sym(x) or isinstance(x, SArr):
        return True
    if isinstance(x, (list, tuple)):
        return any(_deepsym(i) for i in x)
    return False


def _fixarg(x):
    if isinstance(x, list) and any(isinstance(i, np.ndarray) for i in x):
        return x
    if isinstance(x, tuple) and any(isinstance(i, np.ndarray) for i in x):
        return x
    return x


class NP(types.ModuleType):
    def __getattr__(self, name):
        real = getattr(np, name)
        if isinstance(real, np.ufunc):
            w = _uf(name)
        elif name == "fft":
            w = fft.NUMPY
        elif isinstance(real, types.ModuleType):
            w = NPSub(real)
        elif isinstance(real, type) or not callable(real):
            w = real
        else:
            w = _wrapfun(real)
        object.__setattr__(self, name, w)
        return w


class NPSub(types.ModuleType):
    def __init__(self, real):
        super().__init__(real.__name__)
        object.__setattr__(self, "_real", real)

    def __getattr__(self, name):
        real = getattr(self._real, name)
        if callable(real) and not isinstance(real, type):
            if name in ("inv", "det", "solve", "lstsq") and "linalg" in self._real.__name__:
                return _LIN[name]

            def f(*a, **k):
                return wrap(real(*a, **k))
            return f
        return real


def lin_det(a):
    a = _obj(a)
    n = len(a)
    if n == 0:
        return 1.0
    if n == 1:
        return a[0, 0]
    r = 0.0
    for j in range(n):
        m = np.delete(np.delete(a, 0, 0), j, 1)
        r = r + (1 if j % 2 == 0 else -1) * a[0, j] * lin_det(m)
    return r


def lin_inv(a):
    a = _obj(a)
    n = len(a)
    d = lin_det(a)
    if bool(d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(a, j, 0), i, 1)
            r[i, j] = (1 if (i + j) % 2 == 0 else -1) * lin_det(m) / d
    return r.view(SArr)


def lin_solve(a, b):
    return np_dot(lin_inv(a), b)


def lin_lstsq(a, b, rcond=None):
    """Least squares: the minimum-norm solution of one column, the unique one of several."""
    a, b = _obj(a), _obj(b)
    if not (_hassym(a) or _hassym(b)):
        return np.linalg.lstsq(np.array(a, dtype=float), np.array(b, dtype=float), rcond=rcond)
    m, n = a.shape
    if b.ndim != 1:
        raise core.EngineLimit("lstsq of a matrix")
    at = a.T
    ata = np.array([[sum([at[i, k] * a[k, j] for k in range(m)], 0.0) for j in range(n)] for i in range(n)], dtype=object).reshape(n, n)
    atb = [sum([at[i, k] * b[k] for k in range(m)], 0.0) for i in range(n)]
    if n == 1 and bool(ata[0, 0] == 0):
        x, rank = [0.0], 0
    elif n and bool(lin_det(ata) == 0):
        raise core.EngineLimit("rank-deficient least squares")
    else:
        inv = lin_inv(ata) if n else None
        x, rank = [sum([inv[i, j] * atb[j] for j in range(n)], 0.0) for i in range(n)], n
    xs = np.empty(n, dtype=object)
    xs[:] = x
    res = np.empty(0, dtype=object)
    if rank == n and m > n:
        res = np.empty(1, dtype=object)
        res[0] = sum([(sum([a[k, j] * x[j] for j in range(n)], 0.0) - b[k]) ** 2 for k in range(m)], 0.0)
    return xs.view(SArr), res.view(SArr), rank, None


def _part(x, k):
    if isinstance(x, fft.CArr):
        return (x.re, x.im)[k]
    if not sym(x) and np.iscomplexobj(x):
        return wrap(np.asarray((np.real, np.imag)[k](x)))
    return x if k == 0 else x * 0.0


_LIN = {"inv": lin_inv, "det": lin_det, "solve": lin_solve, "lstsq": lin_lstsq}

shim = NP("numpy")
np_sum, np_prod, np_mean, np_std, np_var = (_amethod(n) for n in ("sum", "prod", "mean", "std", "var"))
np_max, np_min, np_argmax, np_argmin, np_ptp = (_amethod(n) for n in ("max", "min", "argmax", "argmin", "ptp"))
np_round = _amethod("round")
np_sqrt = _uf("sqrt")
np_maximum = _uf("maximum")
np_minimum = _uf("minimum")

_OV = dict(
    array=np_array, asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=np_asarray, zeros=np_zeros, ones=np_ones,
    empty=np_empty, full=np_full, zeros_like=np_zeros_like, ones_like=np_ones_like,
    empty_like=np_empty_like, full_like=np_full_like, eye=np_eye, identity=lambda n, dtype=None: np_eye(n),
    diag=np_diag, where=np_where, nonzero=np_nonzero, flatnonzero=lambda a: np_nonzero(np.ravel(_obj(a)))[0],
    argwhere=lambda a: np.argwhere(concbool_num(a)),
    all=np_all, any=np_any, alltrue=np_all, sum=np_sum, prod=np_prod, mean=np_mean, std=np_std, var=np_var,
    max=np_max, min=np_min, amax=np_max, amin=np_min, argmax=np_argmax, argmin=np_argmin, ptp=np_ptp,
    nanmax=np_max, nanmin=np_min, nanmean=np_mean, nansum=np_nansum,
    around=np_round, round=np_round, clip=np_clip, sort=np_sort, argsort=np_argsort,
    searchsorted=np_searchsorted, unique=np_unique, array_equal=np_array_equal, isclose=np_isclose,
    allclose=np_allclose, dot=np_dot, matmul=np_dot, inner=np_dot, vdot=np_dot, outer=np_outer, interp=np_interp, linspace=np_linspace,
    arange=np_arange, cumsum=np_cumsum, count_nonzero=np_count_nonzero, isscalar=np_isscalar,
    average=np_average, diff=np_diff, trapezoid=np_trapz, polyval=np_polyval, vander=np_vander,
    isin=np_isin, in1d=np_isin, select=np_select, piecewise=np_piecewise, loadtxt=np_loadtxt,
    sinc=lambda x: wrap(_call(_sinc, [_obj(x)])) if isinstance(x, np.ndarray) else _sinc(x),
    isrealobj=lambda x: True, real=lambda x: _part(x, 0), imag=lambda x: _part(x, 1), copy=lambda a, **k: np_array(a),
    genfromtxt=lambda *a, **k: decode(np.genfromtxt(*a, **k)),
    nan_to_num=lambda x, **k: np_where(shim.isnan(x), 0.0, x),
    fix=lambda x: shim.trunc(x),
    float64=type("float64", (np.float64,), {}), 
)
for _k, _v in _OV.items():
    object.__setattr__(shim, _k, _v)


class _F64Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, np.float64) or (isinstance(o, SymReal) and o.kind == "f")

    def __subclasscheck__(cls, c):
        return issubclass(c, np.float64)

    def __call__(cls, *a):
        return np_float64(*a)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int) or (isinstance(o, SymReal) and o.kind == "i")

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __call__(cls, *a, **k):
        if a and sym(a[0]):
            return builtins.int(a[0])
        return builtins.int(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)

    def __getattr__(cls, n):
        return getattr(builtins.int, n)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float) or (isinstance(o, SymReal) and o.kind == "f")

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __call__(cls, *a):
        if not a:
            return 0.0
        x = a[0]
        if sym(x) or isinstance(x, core.Fraction):
            return SymReal(core.lift(x), "f", True) if sym(x) else tofloat(x)
        if isinstance(x, SArr):
            if x.size == 1:
                return tofloat(x.item())
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        if isinstance(x, (str, bytes)):
            return parse_float(x)
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)

    def __getattr__(cls, n):
        return getattr(builtins.float, n)


symint = _IntMeta("int", (builtins.int,), {})
symfloat = _FloatMeta("float", (builtins.float,), {})
_f64 = _F64Meta("float64", (np.float64,), {})
object.__setattr__(shim, "float64", _f64)
object.__setattr__(shim, "double", _f64)
object.__setattr__(shim, "pi", core.pi())

_FUNC_OVERRIDE = {}
for _k, _v in _OV.items():
    _r = getattr(np, _k, None)
    if _r is not None and callable(_r) and not isinstance(_r, type):
        _FUNC_OVERRIDE[_r] = _v


# -- math -----------------------------------------------------------------------------------
class MATH(types.ModuleType):
    def __getattr__(self, name):
        return getattr(_math, name)


mshim = MATH("math")


def _m1(f, real):
    def g(x):
        return f(x) if sym(x) else real(x)
    return g


for _n, _f in dict(exp=_exp, log=_log, sqrt=_sqrt, sin=_sin, cos=_cos, tan=_tan, asin=_arcsin,
                   fabs=_abs).items():
    object.__setattr__(mshim, _n, (lambda f: lambda x, *a: f(x))(_f))
object.__setattr__(mshim, "floor", lambda x: x.__floor__() if sym(x) else _math.floor(x))
object.__setattr__(mshim, "ceil", lambda x: x.__ceil__() if sym(x) else _math.ceil(x))
object.__setattr__(mshim, "isnan", lambda x: False if sym(x) else _math.isnan(x))
object.__setattr__(mshim, "isinf", lambda x: False if sym(x) else _math.isinf(x))
object.__setattr__(mshim, "isfinite", lambda x: True if sym(x) else _math.isfinite(x))
object.__setattr__(mshim, "pow", lambda a, b: _pow(a, b))
object.__setattr__(mshim, "pi", core.pi())


# -- builtins ---------------------------------------------------------------------------------
def _minmax(real, pick):
    def f(*args, **k):
        key = k.get("key")
        items = list(args[0]) if len(args) == 1 else list(args)
        if key is None and any(sym(x) for x in items) and all(
                sym(x) or isinstance(x, (int, float, np.number)) for x in items):
            r = items[0]
            for x in items[1:]:
                if core.is_special(x) or core.is_special(r):
                    r = real(r, x)
                else:
                    r = pick(r, x)
            return r
        if len(args) == 1:
            return real(items, **k)
        return real(*args, **k)
    return f


B = dict(builtins.__dict__)
B.update(
    max=_minmax(builtins.max, lambda r, x: core.ite(x > r, x, r)),
    min=_minmax(builtins.min, lambda r, x: core.ite(x < r, x, r)),
    float=symfloat, int=symint, eval=sym_eval,
)
