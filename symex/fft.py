"""Discrete Fourier transforms of symbolic sequences: exact sums with double-precision twiddles."""
import types

import numpy as np

from . import core
from .core import sym


def _rot(k, n):
    """cos and sin of 2 pi k / n, exact where they are rational."""
    k %= n
    f = 8 * k
    if f % n == 0:
        t = f // n
        c = [1.0, None, 0.0, None, -1.0, None, 0.0, None][t]
        s = [0.0, None, 1.0, None, 0.0, None, -1.0, None][t]
        if c is not None:
            return c, s
    a = 2 * np.pi * k / n
    return float(np.cos(a)), float(np.sin(a))


class CArr:
    """A one-dimensional complex array of symbolic numbers."""

    def __init__(self, re, im):
        from . import npshim
        self.re, self.im = npshim.np_array(list(re)), npshim.np_array(list(im))

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)
    shape = property(lambda s: (len(s.re),))
    size = property(lambda s: len(s.re))
    ndim = 1

    def __len__(self): return len(self.re)
    def copy(self): return CArr(self.re, self.im)
    def conj(self): return CArr(self.re, -self.im)
    conjugate = conj

    def __iter__(self):
        raise core.EngineLimit("iteration over complex numbers")

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            raise core.EngineLimit("complex scalar")
        return CArr(self.re[k], self.im[k])

    def __setitem__(self, k, v):
        if isinstance(v, CArr):
            self.re[k], self.im[k] = v.re, v.im
        elif isinstance(v, (complex, np.complexfloating)):
            self.re[k], self.im[k] = v.real, v.imag
        else:
            self.re[k], self.im[k] = v, 0.0

    def _two(self, o):
        if isinstance(o, CArr):
            return o.re, o.im
        if isinstance(o, (complex, np.complexfloating)):
            return o.real, o.imag
        if isinstance(o, np.ndarray) and np.iscomplexobj(o):
            return np.real(o), np.imag(o)
        return o, 0.0

    def __add__(self, o):
        a, b = self._two(o)
        return CArr(self.re + a, self.im + b)

    def __sub__(self, o):
        a, b = self._two(o)
        return CArr(self.re - a, self.im - b)

    def __mul__(self, o):
        a, b = self._two(o)
        if not isinstance(b, np.ndarray) and b == 0:
            return CArr(self.re * a, self.im * a)
        return CArr(self.re * a - self.im * b, self.re * b + self.im * a)

    def __truediv__(self, o):
        return CArr(self.re / o, self.im / o)

    def __neg__(self): return CArr(-self.re, -self.im)
    __radd__, __rmul__ = __add__, __mul__

    def __array_ufunc__(self, uf, method, *a, **k):
        if method != "__call__" or k:
            return NotImplemented
        f = {"add": lambda x, y: (x if isinstance(x, CArr) else y) + (y if isinstance(x, CArr) else x),
             "multiply": lambda x, y: (x if isinstance(x, CArr) else y) * (y if isinstance(x, CArr) else x)}.get(uf.__name__)
        return NotImplemented if f is None else f(*a)


def _sum(cs, xs):
    r = 0.0
    for c, x in zip(cs, xs):
        if c:
            r = r + (x if c == 1 else -x if c == -1 else c * x)
    return r


def _dft(x, n, sign):
    from . import npshim
    re, im = (list(x.re), list(x.im)) if isinstance(x, CArr) else ([v for v in npshim.np_array(list(x))], None)
    n = len(re) if n is None else int(n)
    cut = lambda v: (v + [0.0] * (n - len(v)))[:n]  # noqa: E731
    re = cut(re)
    im = None if im is None else cut(im)
    ore, oim = [], []
    for k in range(n):
        rot = [_rot(k * j, n) for j in range(n)]
        cs, sn = [c for c, s in rot], [sign * s for c, s in rot]
        a, b = _sum(cs, re), _sum(sn, re)
        if im is not None:
            a, b = a - _sum(sn, im), b + _sum(cs, im)
        ore.append(a)
        oim.append(b)
    return CArr(ore, oim)


def _concrete(x):
    if isinstance(x, CArr):
        return False
    return not any(sym(v) for v in np.asarray(x, dtype=object).flat)


def _num(x):
    return np.asarray(np.asarray(x, dtype=object).tolist(), dtype=complex if any(isinstance(v, complex) for v in np.asarray(x, dtype=object).flat) else float)


def fft(x, n=None, *a, **k):
    if _concrete(x):
        return np.fft.fft(_num(x), n)
    return _dft(x, n, -1)


def ifft(x, n=None, *a, **k):
    if _concrete(x):
        return np.fft.ifft(_num(x), n)
    r = _dft(x, n, 1)
    return r * (1.0 / len(r))


def nrfft(x, n=None, *a, **k):
    if _concrete(x):
        return np.fft.rfft(_num(x), n)
    r = _dft(x, n, -1)
    return r[:len(r) // 2 + 1]


def nirfft(x, n=None, *a, **k):
    if _concrete(x):
        return np.fft.irfft(_num(x), n)
    n = 2 * (len(x) - 1) if n is None else int(n)
    m = n // 2 + 1
    c = (list(x.re) + [0.0] * m)[:m], (list(x.im) + [0.0] * m)[:m]
    c[1][0] = 0.0
    if n % 2 == 0:
        c[1][-1] = 0.0
    tail = list(range(1, (n + 1) // 2))[::-1]
    full = CArr(c[0] + [c[0][i] for i in tail], c[1] + [-c[1][i] for i in tail])
    return ifft(full).re


def fftfreq(n, d=1.0, *a, **k):
    from . import npshim
    return npshim.np_array([(i if i <= (n - 1) // 2 else i - n) / (n * d) for i in range(n)])


def rfftfreq(n, d=1.0, *a, **k):
    from . import npshim
    return npshim.np_array([i / (n * d) for i in range(n // 2 + 1)])


def shift(sgn):
    def f(x, *a, **k):
        n = len(x)
        h = n // 2 if sgn > 0 else n - n // 2
        ids = [(i - h) % n for i in range(n)]
        return x[ids]
    return f


class Sub(types.ModuleType):
    def __init__(self, name, over):
        super().__init__(name)
        self.__dict__.update(over)
        self.__dict__["_name"] = name

    def __getattr__(self, k):
        import importlib
        return getattr(importlib.import_module(self._name), k)


COMMON = dict(fft=fft, ifft=ifft, fftfreq=fftfreq, fftshift=shift(1), ifftshift=shift(-1))
NUMPY = Sub("numpy.fft", dict(COMMON, rfft=nrfft, irfft=nirfft, rfftfreq=rfftfreq))
SCIPY = Sub("scipy.fft", dict(COMMON, rfft=nrfft, irfft=nirfft, rfftfreq=rfftfreq))
FFTPACK = Sub("scipy.fftpack", dict(COMMON))
