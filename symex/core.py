"""Symbolic values, path exploration and solver access.

A *path* is one execution of a harness in which every symbolic branch has been
decided; paths are enumerated by re-execution with a decision prefix.
"""
import numbers
import time
from fractions import Fraction

import numpy as np
import z3

z3.set_param("model.completion", True)


class PathEnd(BaseException):
    """Abandon this path (its condition is unsatisfiable or assumed away)."""


class Budget(BaseException):
    """The exploration budget of a scenario is used up."""


class EngineLimit(BaseException):
    """The engine cannot represent an operation."""


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.branches = 0
        self.feas_queries = 0
        self.proof_queries = 0
        self.norm_discharged = 0
        self.trivial = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.concretised = 0
        self.fallback_cases = 0


STATS = Stats()
SLOW = bool(__import__("os").environ.get("VERIF_SLOW"))
CTX = None  # active path context

# -- definitions of fresh variables -------------------------------------------------
_DEFS = {}      # var name -> list of z3 constraints
_FUN = {}       # function name -> list of (arg expr, var)
_FUNKEY = {}    # (function, arg ast id) -> var
_KEEP = []      # keep asts alive so that ids stay unique
SQ = {}         # sqrt var name -> arg expr
_counter = [0]


def reset_defs():
    _DEFS.clear(); _FUN.clear(); _FUNKEY.clear(); del _KEEP[:]; SQ.clear()
    _counter[0] = 0
    _NORM.clear(); _ATOMS.clear(); _EXPARG.clear(); _LOGARG.clear(); _SINARG.clear(); _ASIN.clear(); del HINTS[:]
    _POSCONST.clear(); _POSCONST.update(("pi", "ln2"))
    _VARS.clear()
    pi()


def fresh(prefix, sort="r"):
    _counter[0] += 1
    n = "%s!%d" % (prefix, _counter[0])
    return z3.Int(n) if sort == "i" else z3.Real(n)


_VARS = {}


def vars_of(e):
    """Names of the uninterpreted constants in e (cached)."""
    key = e.get_id()
    r = _VARS.get(key)
    if r is not None:
        return r
    seen, out, st = set(), {}, [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if x.num_args() == 0:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.decl().name()] = x
        else:
            st.extend(x.children())
    r = frozenset(out)
    _VARS[key] = r
    _KEEP.append(e)
    return r


def closure_axioms(exprs):
    """Defining constraints of every fresh variable reachable from exprs."""
    todo = set()
    for e in exprs:
        todo |= vars_of(e)
    done, out = set(), []
    while todo:
        v = todo.pop()
        if v in done:
            continue
        done.add(v)
        for c in _DEFS.get(v, ()):
            out.append(c)
            todo |= vars_of(c) - done
    return out, done


# -- constants ------------------------------------------------------------------------
_QCACHE = {}


def q(x):
    k = (type(x), x)
    r = _QCACHE.get(k)
    if r is None:
        if len(_QCACHE) > 20000:
            _QCACHE.clear()
        r = _QCACHE[k] = _q(x)
    return r


def _q(x):
    if isinstance(x, bool) or isinstance(x, np.bool_):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    f = Fraction(repr(float(x)))
    return z3.Q(f.numerator, f.denominator)


SENTINELS = {}   # float -> SymReal (text mode)


def is_special(x):
    return isinstance(x, (float, np.floating)) and (x != x or x in (float("inf"), float("-inf")))


def sym(x):
    return isinstance(x, (SymReal, SymBool))


def const_of(e):
    """Fraction value of a constant z3 real expression, or None."""
    if not _numeral(e):
        return None
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


_raw = lambda f: f.__defaults__[0].f          # noqa: E731   (the foreign function without the error check)
_kindof, _nargs, _argof = (_raw(f) for f in (z3.z3core.Z3_get_ast_kind, z3.z3core.Z3_get_app_num_args, z3.z3core.Z3_get_app_arg))
_NUM, _APP = int(z3.z3consts.Z3_NUMERAL_AST), int(z3.z3consts.Z3_APP_AST)


def _numeral(e):
    return _kindof(e.ctx.ctx, e.ast) == _NUM


def _allnum(e):
    """An application to numerals only."""
    c, a = e.ctx.ctx, e.ast
    if _kindof(c, a) != _APP:
        return False
    n = _nargs(c, a)
    return n > 0 and all(_kindof(c, _argof(c, a, i)) == _NUM for i in range(n))


def lift(x):
    """z3 Real expression for a number, or None if x is not one."""
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, (bool, np.bool_, int, np.integer, Fraction)):
        return q(x)
    if isinstance(x, (float, np.floating)):
        s = SENTINELS.get(float(x))
        if s is not None:
            return s.e
        return None if is_special(x) else q(x)
    return None


def _kind(a, b):
    ka = a.kind if isinstance(a, SymReal) else ("i" if isinstance(a, (bool, int, np.integer, np.bool_, SymBool)) else "f")
    kb = b.kind if isinstance(b, SymReal) else ("i" if isinstance(b, (bool, int, np.integer, np.bool_, SymBool)) else "f")
    return "i" if ka == kb == "i" else "f"


def mk(e, kind="f"):
    """Wrap a z3 real expression, folding constants back to Python numbers."""
    if _allnum(e):
        e = z3.simplify(e)
    c = const_of(e)
    if c is not None and CTX is not None and not CTX.keep_const:
        return num(c, kind)
    return SymReal(e, kind)


def num(c, kind="f"):
    if kind == "i" and c.denominator == 1:
        return int(c)
    f = c.numerator / c.denominator
    if Fraction(repr(f)) == c:
        return np.float64(f)
    return SymReal(z3.Q(c.numerator, c.denominator), kind)


class SymBool:
    __slots__ = ("e",)
    __array_priority__ = -1

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.fork(self.e)

    def _co(self, o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        b = self._co(o)
        return NotImplemented if b is None else mkb(z3.And(self.e, b))
    __rand__ = __and__

    def __or__(self, o):
        b = self._co(o)
        return NotImplemented if b is None else mkb(z3.Or(self.e, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = self._co(o)
        return NotImplemented if b is None else mkb(z3.Xor(self.e, b))
    __rxor__ = __xor__

    def __invert__(self):
        return mkb(z3.Not(self.e))
    logical_not = __invert__

    def __eq__(self, o):
        b = self._co(o)
        if b is None:
            return self._r() == o
        return mkb(self.e == b)

    def __ne__(self, o):
        b = self._co(o)
        if b is None:
            return self._r() != o
        return mkb(self.e != b)

    def __hash__(self):
        return 0

    def _r(self):
        return SymReal(lift(self), "i")

    def __add__(self, o): return self._r() + o
    def __radd__(self, o): return o + self._r()
    def __sub__(self, o): return self._r() - o
    def __rsub__(self, o): return o - self._r()
    def __mul__(self, o): return self._r() * o
    def __rmul__(self, o): return o * self._r()
    def __truediv__(self, o): return self._r() / o
    def __lt__(self, o): return self._r() < o
    def __le__(self, o): return self._r() <= o
    def __gt__(self, o): return self._r() > o
    def __ge__(self, o): return self._r() >= o
    def __neg__(self): return -self._r()

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __index__(self):
        return int(bool(self))

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __repr__(self):
        return "<b %s>" % str(self.e)[:200]


def mkb(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    f = z3.simplify(e)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return SymBool(e)


def bexpr(b):
    """z3 Bool of a SymBool / bool / number."""
    if isinstance(b, SymBool):
        return b.e
    if isinstance(b, SymReal):
        return b.e != 0
    return z3.BoolVal(bool(b))


class SymReal:
    __slots__ = ("e", "kind", "py")       # py: a plain Python float (numpy prints its own differently)
    __array_priority__ = -1

    def __init__(self, e, kind="f", py=False):
        self.e = e
        self.kind = kind
        self.py = py

    # numpy scalar look
    ndim = 0
    shape = ()
    size = 1
    dtype = np.dtype(object)

    def item(self): return self
    def astype(self, t, **kw):
        from . import npshim
        return npshim.cast_scalar(self, t)
    def copy(self): return self
    def squeeze(self): return self
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0.0
    @property
    def T(self): return self
    def sum(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def round(self, n=0): return round(self, n)

    def _bin(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        b = lift(o)
        if b is None:
            return NotImplemented
        return mk(f(self.e, b), _kind(self, o))

    def __add__(self, o):
        if is_special(o): return o
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if is_special(o): return o
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        if is_special(o): return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if is_special(o): return o
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if is_special(o): return _mulspecial(self, o)
        c = None if sym(o) or isinstance(o, np.ndarray) else lift(o)
        if c is not None:
            cv = const_of(c)
            if cv == 1 and not (self.kind == "i" and isinstance(o, (float, np.floating))):
                return self
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if is_special(o): return _mulspecial(self, o)
        return self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        if is_special(o):
            return o if o != o else 0.0
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return div(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if is_special(o):
            return _mulspecial(self, o)
        return div(o, self)

    def __floordiv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return floor(div(self, o), "i" if _kind(self, o) == "i" else "f")

    def __rfloordiv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return floor(div(o, self), "i" if _kind(self, o) == "i" else "f")

    def __mod__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return self - o * (self // o)

    def __rmod__(self, o):
        return o - self * (o // self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return mk(-self.e, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        if CTX is not None:
            d = CTX.decided(self.e >= 0, False)
            if d is True:
                return self
            if d is False or CTX.decided(self.e <= 0, False) is True:
                return mk(-self.e, self.kind)
        if self.e.num_args() == 0 and CTX is not None:
            if CTX.known(self.e >= 0):
                return self
            if CTX.known(self.e <= 0):
                return mk(-self.e, self.kind)
        return mk(z3.If(self.e >= 0, self.e, -self.e), self.kind)

    def _cmp(self, o, f, special):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if is_special(o):
            return special(0.0, float(o))
        b = lift(o)
        if b is None:
            return NotImplemented
        return mkb(f(self.e, b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, lambda a, b: False)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, lambda a, b: True)

    def __hash__(self):
        return 0

    def __bool__(self):
        return CTX.fork(self.e != 0)

    def __index__(self):
        if self.kind != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CTX.concretise_int(self.e)

    def __int__(self):
        if self.kind == "i":
            return CTX.concretise_int(self.e)
        if bool(self >= 0):
            return CTX.concretise_floor(self.e)
        return -CTX.concretise_floor((-self).e)
    __trunc__ = __int__

    def __float__(self):
        return CTX.to_float(self)

    def __round__(self, n=None):
        if n:
            raise EngineLimit("round to digits")
        if "pi" in vars_of(self.e):
            v = CTX.concretise_floor(self.e + z3.Q(1, 2))
            if v % 2 and bool(self == v - 0.5):
                v -= 1
            return v if n is None else np.float64(v)
        f = z3.ToReal(z3.ToInt(self.e))
        d = self.e - f
        even = z3.ToInt(self.e) % 2 == 0
        e = z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(even, f, f + 1)))
        r = mk(e, "i" if n is None else "f")
        if n is None and isinstance(r, SymReal):
            return CTX.concretise_int(r.e)
        return r

    def __floor__(self):
        return CTX.concretise_int(floor(self, "i").e)

    def __ceil__(self):
        return CTX.concretise_int((-floor(-self, "i")).e)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    # object-ufunc hooks
    def sqrt(self): return sqrt(self)
    def exp(self): return exp(self)
    def log(self): return log(self)
    def sin(self): return sin(self)
    def cos(self): return cos(self)
    def arcsin(self): return arcsin(self)
    def floor(self): return floor(self)
    def ceil(self): return ceil(self)
    def rint(self): return round(self, 0)
    def isnan(self): return False

    def is_integer(self):
        return mkb(z3.IsInt(self.e))

    def __repr__(self):
        if CTX is not None and CTX.text:
            return repr(np.float64(float(self))) if self.kind == "f" and not self.py else repr(float(self))
        return "<s %s>" % str(self.e)[:200]

    def __str__(self):
        if CTX is not None and CTX.text:
            return str(float(self))
        return repr(self)

    def __format__(self, spec):
        if CTX is not None and CTX.text:
            return format(float(self), spec)
        return repr(self)


numbers.Real.register(SymReal)


def _mulspecial(s, o):
    if o != o:
        return o
    if s == 0:
        return float("nan")
    return o if s > 0 else -o


def div(a, b):
    if is_special(a):
        return _mulspecial(b, a) if sym(b) else a / b
    if is_special(b):
        return b if b != b else 0.0
    ea, eb = lift(a), lift(b)
    if ea is None or eb is None:
        return NotImplemented
    cb = const_of(eb)
    if cb is None:
        if CTX.fork(eb == 0):
            cb = 0
        else:
            if const_of(ea) == 0:
                return 0.0
            return mk(ea / eb)
    if cb == 0:
        r = mkb(ea == 0)
        if r:
            return float("nan")
        return float("inf") if mkb(ea > 0) else float("-inf")
    return mk(ea / z3.Q(cb.numerator, cb.denominator))


def power(a, b):
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b.item()
    eb = lift(b)
    c = const_of(eb) if eb is not None else None
    if c is None:
        ca = None if sym(a) else a
        if isinstance(b, SymReal) and b.kind == "i":
            return power(a, CTX.concretise_int(b.e))
        if ca is not None and ca > 0:
            return exp(b * log_const(ca))
        raise EngineLimit("symbolic exponent")
    if c.denominator == 1:
        n = int(c)
        if n == 0:
            return 1 if _kind(a, b) == "i" else np.float64(1.0)
        r = a
        for _ in range(abs(n) - 1):
            r = r * a
        if n < 0:
            return div(1.0, r)
        return r
    if c.denominator == 2:
        s = sqrt(a)
        return power(s, int(c * 2))
    raise EngineLimit("fractional exponent %s" % c)


# -- transcendental functions ------------------------------------------------------------
def _funvar(fn, arg):
    """Variable standing for fn(arg); semantically equal arguments share it when
    a normal form can tell."""
    arg = z3.simplify(arg)
    key = (fn, arg.get_id())
    v = _FUNKEY.get(key)
    if v is not None:
        return v, False
    for a2, v2 in _FUN.get(fn, ()):
        if poly_equal(arg, a2):
            _FUNKEY[key] = v2
            _KEEP.append(arg)
            return v2, False
    v = fresh(fn)
    _FUNKEY[key] = v
    _KEEP.append(arg)
    _KEEP.append(v)
    _FUN.setdefault(fn, []).append((arg, v))
    return v, True


HINTS = []      # nonnegative candidate square roots given by a harness


def _posname(v):
    e = _ATOMS.get(v)
    if e is None:
        return None
    if v in _POSCONST:
        return True
    return CTX.known(e > 0)


_POSCONST = {"pi", "ln2"}


def _sqrt_rational(c):
    """sqrt of a positive rational as Fraction * product of prime roots (z3 term)."""
    n = c.numerator * c.denominator
    out, root = Fraction(1, c.denominator), []
    p = 2
    while p * p <= n:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        out *= p ** (k // 2)
        if k % 2:
            root.append(p)
        p += 1
        if p > 2000:
            break
    if n > 1:
        r = int(round(n ** 0.5))
        if r * r == n:
            out *= r
        else:
            root.append(n)
    t = q(out)
    for p in root:
        t = t * _sqrtatom(q(p))
    return t


def _sqrtatom(a):
    v, new = _funvar("sqrt", a)
    if new:
        _DEFS[v.decl().name()] = [v >= 0, v * v == a]
        SQ[v.decl().name()] = a
        c = const_of(a)
        if c is not None:
            f = float(c) ** 0.5
            _DEFS[v.decl().name()] += [v > q(f * (1 - 1e-14)), v < q(f * (1 + 1e-14))]
            _POSCONST.add(v.decl().name())
    return v


def _poly_term(p):
    t = []
    for m, c in p.items():
        e = q(c)
        for v, k in m:
            for _ in range(k):
                e = e * _ATOMS[v]
        t.append(e)
    return z3.Sum(t) if len(t) > 1 else (t[0] if t else z3.RealVal(0))


def _content(p):
    """(rational, monomial) content of a polynomial and the remaining polynomial."""
    ms = list(p)
    common = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        common = {v: min(k, dm[v]) for v, k in common.items() if v in dm}
    from math import gcd
    cs = list(p.values())
    num, den = 0, 1
    for c in cs:
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    g = Fraction(num, den)

    def red(m):
        return tuple((v, k - common.get(v, 0)) for v, k in m if k - common.get(v, 0))
    return g, common, {red(m): c / g for m, c in p.items()}


def _simp_sqrt(a):
    """sqrt of the nonnegative term a, with perfect powers taken out."""
    for h in HINTS:
        if poly_equal(a, lift(h * h)):
            return lift(h)
    try:
        n, d = norm(a)
    except TooBig:
        return None
    if not n or CTX is None:
        return None
    gn, mn, rn = _content(n)
    gd, md, rd = _content(d)
    if len(rn) == 1 and len(rd) == 1:     # a monomial quotient
        c = gn / gd * rn[()] / rd[()]
        if c <= 0:
            # sign sits in the variables
            return None
        out = _sqrt_rational(c)
        rest = None
    else:
        out = _sqrt_rational(gn / gd)
        rest = (rn, rd)
    exps = dict(mn)
    for v, k in md.items():
        exps[v] = exps.get(v, 0) - k
    left = []        # odd powers of atoms of unknown sign
    for v, k in sorted(exps.items()):
        e = _ATOMS[v]
        pos = _posname(v) if k else None
        h, odd = divmod(k, 2)
        if odd and not pos:
            left.append((v, odd))
        elif odd:
            out = out * _sqrtatom(e)
        if h:
            b = e if pos else z3.If(e >= 0, e, -e)
            if not pos and CTX.known(e < 0):
                b = -e
            for _ in range(abs(h)):
                out = out * b if h > 0 else out / b
    if left or rest:
        inner = z3.RealVal(1)
        for v, _ in left:
            inner = inner * _ATOMS[v]
        if rest:
            rn, rd = rest
            den = _poly_term(rd)
            if len(rd) == 1:
                inner = inner * _poly_term(rn) / den
            else:
                # sqrt(n/d) = sqrt(n d)/|d|
                if CTX.known(den > 0):
                    inner = inner * _poly_term(rn) * den
                    out = out / den
                else:
                    inner = inner * _poly_term(rn) / den
        inner = z3.simplify(inner)
        for h in HINTS:
            if poly_equal(inner, lift(h * h)):
                return out * lift(h)
        out = out * _sqrtatom(inner)
    return z3.simplify(out)


def sqrt(x):
    if not sym(x):
        return np.sqrt(x) if not isinstance(x, Fraction) else sqrt(SymReal(q(x)))
    if isinstance(x, SymBool):
        x = x._r()
    key = z3.simplify(x.e)
    if CTX is not None and CTX.fork(key < 0):
        return float("nan")
    memo = ("sqrt", key.get_id())
    r = CTX.memo.get(memo) if CTX is not None else None
    if r is None:
        t = _simp_sqrt(key) if CTX is None or not CTX.opaque else None
        r = mk(t) if t is not None else SymReal(_sqrtatom(key))
        if CTX is not None:
            CTX.memo[memo] = r
            _KEEP.append(key)
    return r


def exp(x):
    if not sym(x):
        if x == 0:
            return 1.0
        if is_special(x):
            return np.exp(x)
        x = SymReal(q(x))
    if const_of(z3.simplify(x.e)) == 0:
        return np.float64(1.0)
    try:
        if not norm(x.e)[0]:
            return np.float64(1.0)
    except TooBig:
        pass
    v, new = _funvar("exp", x.e)
    if new:
        a = z3.simplify(x.e)
        _EXPARG[v.decl().name()] = a
        _DEFS[v.decl().name()] = [
            v > 0, z3.Implies(a == 0, v == 1), z3.Implies(a < 0, v < 1),
            z3.Implies(a > 0, v > 1), v >= 1 + a]
    return SymReal(v)


_EXPARG = {}
_LOGARG = {}


def _log_exp(e):
    """log of a quotient of products of exponentials."""
    try:
        n, d = norm(e)
    except TooBig:
        return None
    if len(n) != 1 or len(d) != 1:
        return None
    (mn, cn), = n.items()
    (md, cd), = d.items()
    if cn != cd or not (mn or md) or any(v not in _EXPARG for v, _ in mn + md):
        return None
    t = [_EXPARG[v] * q(k) for v, k in mn] + [-_EXPARG[v] * q(k) for v, k in md]
    return z3.simplify(z3.Sum(t))


def log(x):
    if not sym(x):
        return log_const(x)
    if CTX.fork(x.e <= 0):
        return float("-inf") if CTX.fork(x.e == 0) else float("nan")
    t = _log_exp(x.e)
    if t is not None:
        return mk(t)
    v, new = _funvar("log", x.e)
    if new:
        a = z3.simplify(x.e)
        _LOGARG[v.decl().name()] = a
        _DEFS[v.decl().name()] = [
            z3.Implies(a == 1, v == 0), z3.Implies(a > 1, v > 0),
            z3.Implies(a < 1, v < 0), v <= a - 1]
    return SymReal(v)


def _bounded_const(name, lo, hi):
    v = z3.Real(name)
    _DEFS[name] = [v > z3.RealVal(lo), v < z3.RealVal(hi)]
    return SymReal(v)


def log_const(c):
    import math
    if c == 1:
        return 0.0
    if is_special(c) or c <= 0:
        return np.log(c)
    if c == 2:
        return _bounded_const("ln2", "0.693147180559945309", "0.693147180559945310")
    f = math.log(c)
    return _bounded_const("ln(%r)" % float(c), repr(f - 1e-12), repr(f + 1e-12))


def pi():
    return _bounded_const("pi", "3.14159265358979323", "3.14159265358979324")


def _trigatoms(a):
    s, new = _funvar("sin", a)
    c, newc = _funvar("cos", a)
    if new:
        _DEFS[s.decl().name()] = [s >= -1, s <= 1, c >= -1, c <= 1, s * s + c * c == 1, z3.Implies(a == 0, z3.And(s == 0, c == 1))]
        _DEFS[c.decl().name()] = _DEFS[s.decl().name()]
        SQ[c.decl().name()] = 1 - s * s
        _SINARG[s.decl().name()] = a
    return s, c


_SINARG = {}
_ASIN = {}


def canon(e):
    """(polynomial, monomial): e as a quotient in lowest terms; (_, None) for other denominators."""
    n, d = norm(e)
    if not n:
        return {}, ()
    if len(d) > 1:
        m = next(iter(d))
        if m in n and len(n) == len(d):
            c = n[m] / d[m]
            if all(n.get(k) == c * v for k, v in d.items()):
                return {(): c}, ()
        return n, None
    (md, cd), = d.items()
    common = dict(md)
    for m in n:
        f = dict(m)
        common = {v: min(k, f[v]) for v, k in common.items() if v in f}
    red = lambda m: tuple((v, j - common.get(v, 0)) for v, j in m if j - common.get(v, 0))  # noqa: E731
    return {red(m): c / cd for m, c in n.items()}, red(md)


def _trig(e):
    """(sin e, cos e) as terms, with quarter turns, signs and arcsines resolved."""
    e = z3.simplify(e)
    try:
        n, dm = canon(e)
    except TooBig:
        return _trigatoms(e)
    if dm is None:
        return _trigatoms(e)
    pim = tuple(sorted(dict(dm, pi=dict(dm).get("pi", 0) + 1).items()))
    c = n.pop(pim, Fraction(0))
    k = 0
    if (2 * c).denominator == 1:
        k = int(2 * c) % 4
    else:
        n[pim] = c
    if not n:
        s, co = z3.RealVal(0), z3.RealVal(1)
    else:
        lead = sorted(n, key=lambda m: (-sum(j for _, j in m), m))[0]
        sign = 1
        if n[lead] < 0:
            sign = -1
            n = {m: -c for m, c in n.items()}
        if len(n) == 1 and n[lead] == 1 and len(lead) == 1 and lead[0][1] == 1 and lead[0][0] in _ASIN:
            s = _ASIN[lead[0][0]]
            co = sqrt(SymReal(1 - s * s))
            co = lift(co)
        elif n == {(): Fraction(0)}:
            s, co = z3.RealVal(0), z3.RealVal(1)
        elif dm:
            s, co = _trigatoms(_poly_term(dict(sorted(n.items()))) / _poly_term({dm: Fraction(1)}))
        else:
            s, co = _trigatoms(z3.simplify(_poly_term(n)))
        if sign < 0:
            s = -s
    s, co = [(s, co), (co, -s), (-s, -co), (-co, s)][k]
    return z3.simplify(s), z3.simplify(co)


def sin(x):
    if not sym(x):
        if x == 0: return 0.0
        if is_special(x): return float("nan")
        x = SymReal(q(x))
    return mk(_trig(x.e)[0])


def cos(x):
    if not sym(x):
        if x == 0: return 1.0
        if is_special(x): return float("nan")
        x = SymReal(q(x))
    return mk(_trig(x.e)[1])


def arcsin(x):
    if not sym(x):
        return np.arcsin(x) if abs(x) not in (1, 0) or CTX is None else (pi() / 2 * x if x else 0.0)
    key = z3.simplify(x.e)
    if CTX.fork(z3.Or(key < -1, key > 1)):
        return float("nan")
    try:
        n, d = norm(key)
        if len(n) == 1 and len(d) == 1 and () in d:
            (m, c), = n.items()
            c = c / d[()]
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in _SINARG and c in (1, -1):
                a = _SINARG[m[0][0]]
                p = pi().e
                if CTX.known(z3.And(a >= -p / 2, a <= p / 2)):
                    return mk(a * q(c))
        if not n:
            return 0.0
    except TooBig:
        pass
    v, new = _funvar("arcsin", x.e)
    if new:
        a = key
        p = pi().e
        _DEFS[v.decl().name()] = [
            v >= -p / 2, v <= p / 2, z3.Implies(a == 0, v == 0),
            z3.Implies(a > 0, v > 0), z3.Implies(a < 0, v < 0),
            z3.Implies(a == 1, v == p / 2), z3.Implies(a == -1, v == -p / 2),
            z3.Implies(v == p / 2, a == 1), z3.Implies(v == -p / 2, a == -1)]
        _ASIN[v.decl().name()] = a
    return SymReal(v)


def floor(x, kind="f"):
    if not sym(x):
        return np.floor(x) if kind == "f" else int(np.floor(x))
    if x.kind == "i":
        return x
    if "pi" in vars_of(x.e):       # an angle counted in turns: one case per turn
        v = CTX.concretise_floor(x.e)
        return v if kind == "i" else np.float64(v)
    return mk(z3.ToReal(z3.ToInt(x.e)), kind)


def ceil(x, kind="f"):
    if not sym(x):
        return np.ceil(x)
    return -floor(-x, kind)


def ite(c, a, b):
    """Symbolic conditional value (numbers or booleans)."""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return mkb(z3.If(c.e, bexpr(a), bexpr(b)))
    if is_special(a) or is_special(b) or CTX.forkite:
        return a if CTX.fork(c.e) else b
    ea, eb = lift(a), lift(b)
    if ea is None or eb is None:
        return a if CTX.fork(c.e) else b
    if ea.eq(eb):
        return a
    return SymReal(z3.If(c.e, ea, eb), _kind(a, b))


def smax(a, b):
    if not sym(a) and not sym(b):
        return np.maximum(a, b)
    if is_special(a) or is_special(b):
        return _sp2(a, b, True)
    return ite(a >= b, a, b)


def smin(a, b):
    if not sym(a) and not sym(b):
        return np.minimum(a, b)
    if is_special(a) or is_special(b):
        return _sp2(a, b, False)
    return ite(a <= b, a, b)


def _sp2(a, b, mx):
    s, o = (a, b) if is_special(a) else (b, a)
    if s != s:
        return s
    return s if (s > 0) == mx else o


# -- rational normal form -----------------------------------------------------------------
_NORM = {}
_ATOMS = {}     # atom name -> term
_MAXTERMS = 4000


class TooBig(Exception):
    pass


def _pmul(p, r):
    if len(p) * len(r) > 60000:
        raise TooBig()
    out = {}
    for m1, c1 in p.items():
        d1 = dict(m1)
        for m2, c2 in r.items():
            d = dict(d1)
            for v, k in m2:
                d[v] = d.get(v, 0) + k
            m = tuple(sorted(d.items()))
            c = out.get(m, 0) + c1 * c2
            if c:
                out[m] = c
            else:
                out.pop(m, None)
    if len(out) > _MAXTERMS:
        raise TooBig()
    return _reduce(out)


def _padd(p, r, s=1):
    out = dict(p)
    for m, c in r.items():
        n = out.get(m, 0) + s * c
        if n:
            out[m] = n
        else:
            out.pop(m, None)
    return out


_PSQ = {}


def _psqrt(key, p):
    """The polynomial whose square is p, or None."""
    if key in _PSQ:
        return _PSQ[key]
    _PSQ[key] = r = _psqrt1(p)
    return r


def _psqrt1(p):
    if len(p) < 3 or len(p) > 40:
        return None
    vs = sorted({v for m in p for v, _ in m})
    P = {}
    for m, c in p.items():
        d = dict(m)
        P[tuple(d.get(v, 0) for v in vs)] = c

    def rt(c):
        if c <= 0:
            return None
        a, b = int(round(float(c.numerator) ** .5)), int(round(float(c.denominator) ** .5))
        return Fraction(a, b) if a * a == c.numerator and b * b == c.denominator else None
    lead = max(P)
    r = rt(P[lead])
    if r is None or any(x % 2 for x in lead):
        return None
    q0 = tuple(x // 2 for x in lead)
    Q = {q0: r}
    R = dict(P)
    del R[lead]
    while R:
        m = max(R)
        t = tuple(a - b for a, b in zip(m, q0))
        if min(t) < 0 or t >= q0 or t in Q or len(Q) > 12:
            return None
        c = R[m] / (2 * r)
        for k, v in list(Q.items()) + [(t, c / 2)]:
            mm = tuple(a + b for a, b in zip(k, t))
            x = R.get(mm, 0) - 2 * v * c
            if x:
                R[mm] = x
            else:
                R.pop(mm, None)
        Q[t] = c
    return {tuple((v, e) for v, e in zip(vs, m) if e): c for m, c in Q.items()}


def _reduce(p):
    """Replace squares of sqrt/sin variables by their definition."""
    if not SQ:
        return p
    again = True
    while again:
        again = False
        for m in list(p):
            for v, k in m:
                if k >= 2 and v in SQ:
                    arg = SQ[v]
                    try:
                        n, d = norm(arg)
                    except TooBig:
                        continue
                    if len(d) != 1 or () not in d:
                        continue
                    c = p.pop(m)
                    rest = tuple((w, j) for w, j in m if w != v)
                    if k - 2:
                        rest = tuple(sorted(rest + ((v, k - 2),)))
                    base = {rest: c / d[()]}
                    out = {}
                    for m1, c1 in base.items():
                        for m2, c2 in n.items():
                            dd = dict(m1)
                            for w, j in m2:
                                dd[w] = dd.get(w, 0) + j
                            mm = tuple(sorted(dd.items()))
                            out[mm] = out.get(mm, 0) + c1 * c2
                    p = _padd(p, out)
                    again = True
                    break
            if again:
                break
    return p


def norm(e):
    """(numerator, denominator) polynomials of a z3 real expression over atoms."""
    key = e.get_id()
    r = _NORM.get(key)
    if r is not None:
        if r == "big":
            raise TooBig()
        return r
    try:
        r = _norm(e)
    except TooBig:
        _NORM[key] = "big"
        _KEEP.append(e)
        raise
    _NORM[key] = r
    _KEEP.append(e)
    return r


_ONE = {(): Fraction(1)}


def _norm(e):
    c = const_of(e)
    if c is not None:
        return ({(): c} if c else {}, _ONE)
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        n, d = norm(ch[0])
        for x in ch[1:]:
            n2, d2 = norm(x)
            s = 1 if k == z3.Z3_OP_ADD else -1
            if d == d2:
                n = _padd(n, n2, s)
            else:
                n, d = _common(n, d, n2, d2, s)
        return n, d
    if k == z3.Z3_OP_UMINUS:
        n, d = norm(ch[0])
        return {m: -c for m, c in n.items()}, d
    if k == z3.Z3_OP_MUL:
        n, d = norm(ch[0])
        for x in ch[1:]:
            n2, d2 = norm(x)
            n = _pmul(n, n2)
            d = d if d2 is _ONE or d2 == _ONE else _pmul(d, d2)
        return n, d
    if k == z3.Z3_OP_DIV:
        n, d = norm(ch[0])
        n2, d2 = norm(ch[1])
        if not n2:
            raise TooBig()
        n, d = _pmul(n, d2), _pmul(d, n2)
        if len(d) == 1 and () in d:
            c = d[()]
            return {m: x / c for m, x in n.items()}, _ONE
        if len(d) == 1 and n:   # cancel common monomial
            (md, cd), = d.items()
            common = dict(md)
            for m in n:
                dm = dict(m)
                for v in list(common):
                    common[v] = min(common[v], dm.get(v, 0))
                    if not common[v]:
                        del common[v]
                if not common:
                    break
            if common:
                def red(m):
                    return tuple((v, j - common.get(v, 0)) for v, j in m if j - common.get(v, 0))
                n = {red(m): c for m, c in n.items()}
                d = {red(md): cd}
        return n, d
    if k == z3.Z3_OP_POWER:
        p = const_of(ch[1])
        if p is not None and p.denominator == 1 and 0 <= p <= 12:
            n, d = norm(ch[0])
            rn, rd = _ONE, _ONE
            for _ in range(int(p)):
                rn, rd = _pmul(rn, n), _pmul(rd, d)
            return rn, rd
    if k == z3.Z3_OP_UNINTERPRETED and not ch:
        _ATOMS.setdefault(e.decl().name(), e)
        return _reduce({((e.decl().name(), 1),): Fraction(1)}), _ONE
    _KEEP.append(e)
    _ATOMS["#%d" % e.get_id()] = e
    return {(("#%d" % e.get_id(), 1),): Fraction(1)}, _ONE


def _common(n, d, n2, d2, s):
    """n/d + s n2/d2, over the least common multiple of monomial denominators."""
    if len(d) == 1 and len(d2) == 1:
        (m, c), = d.items()
        (m2, c2), = d2.items()
        e, e2 = dict(m), dict(m2)
        lcm = {v: max(e.get(v, 0), e2.get(v, 0)) for v in set(e) | set(e2)}
        f = {tuple(sorted((v, k - e.get(v, 0)) for v, k in lcm.items() if k > e.get(v, 0))): 1 / c}
        f2 = {tuple(sorted((v, k - e2.get(v, 0)) for v, k in lcm.items() if k > e2.get(v, 0))): 1 / c2}
        return _padd(_pmul(n, f), _pmul(n2, f2), s), {tuple(sorted(lcm.items())): Fraction(1)}
    return _padd(_pmul(n, d2), _pmul(n2, d), s), _pmul(d, d2)


def _ratadd(x, y):
    (n, d), (n2, d2) = x, y
    if d == d2:
        return _padd(n, n2), d
    return _common(n, d, n2, d2, 1)


def _rateq(x, y):
    (n, d), (n2, d2) = x, y
    if d == d2:
        return not _padd(n, n2, -1)
    return not _padd(_pmul(n, d2), _pmul(n2, d), -1)


def _expzero(p):
    """Is the polynomial p zero once products of exponentials are merged?"""
    groups = []      # (exponent rational function, polynomial of the rest)
    for m, c in p.items():
        ex, rest = ({}, _ONE), []
        for v, k in m:
            if v in _EXPARG:
                n, d = norm(_EXPARG[v])
                ex = _ratadd(ex, ({mm: cc * k for mm, cc in n.items()}, d))
            else:
                rest.append((v, k))
        for g in groups:
            if _rateq(g[0], ex):
                g[1] = _padd(g[1], {tuple(rest): c})
                break
        else:
            groups.append([ex, {tuple(rest): c}])
    return all(not g[1] for g in groups)


def poly_equal(a, b):
    """True when the rational normal forms of a and b coincide."""
    if a.eq(b):
        return True
    try:
        n, d = norm(a)
        n2, d2 = norm(b)
        if d == d2:
            r = _padd(n, n2, -1)
        else:
            r = _padd(_pmul(n, d2), _pmul(n2, d), -1)
        if not r:
            return True
        if _EXPARG and any(v in _EXPARG for m in r for v, _ in m) and len(r) < 400:
            return _expzero(r)
        return False
    except TooBig:
        return False


# -- solving --------------------------------------------------------------------------------
def _tsolve(s, *assumptions):
    t = time.time()
    r = s.check(*assumptions)
    STATS.solver_s += time.time() - t
    return r


def slice_pc(pc, goal_vars):
    """Constraints connected to goal_vars through shared variables."""
    rest = list(pc)
    vs = set(goal_vars)
    out = []
    changed = True
    while changed:
        changed = False
        nrest = []
        for c in rest:
            v = vars_of(c)
            if v & vs or not v:
                out.append(c)
                vs |= v
                changed = True
            else:
                nrest.append(c)
        rest = nrest
    return out


def congruence(varset):
    """Congruence lemmas for the function applications in varset."""
    out = []
    for fn, lst in _FUN.items():
        use = [(a, v) for a, v in lst if v.decl().name() in varset]
        if len(use) > 12:
            use = use[:12]
        for i in range(len(use)):
            for j in range(i):
                (a1, v1), (a2, v2) = use[i], use[j]
                if fn in ("exp", "sqrt", "log", "arcsin"):
                    out.append(z3.And(z3.Implies(a1 == a2, v1 == v2),
                                      z3.Implies(a1 < a2, v1 < v2),
                                      z3.Implies(a1 > a2, v1 > v2)))
                else:
                    out.append(z3.Implies(a1 == a2, v1 == v2))
                    sg = z3.Implies(a1 == -a2, v1 == (-v2 if fn == "sin" else v2))
                    out.append(sg)
    return out


def full_query(cs):
    ax, vs = closure_axioms(cs)
    cg = congruence(vs)
    if cg:
        ax2, _ = closure_axioms(list(cs) + cg)
        ax = ax2
    return list(cs) + ax + cg


def check(cs, timeout=10000, want_model=False):
    """sat / unsat / unknown of a list of constraints, trying several tactics."""
    cs = full_query(cs)
    nonlin = True
    model = None
    last = z3.unknown
    plans = [("default", timeout // 3), ("nra", timeout), ("default", timeout)]
    for name, to in plans:
        if name == "default":
            s = z3.Solver()
        else:
            s = z3.Tactic("qfnra").solver() if False else z3.SolverFor("QF_NRA")
            if any(_has_int(c) for c in cs):
                continue
        s.set("timeout", int(to))
        s.add(*cs)
        try:
            last = _tsolve(s)
        except z3.Z3Exception:
            last = z3.unknown
            continue
        if last == z3.sat:
            return last, (s.model() if want_model else None)
        if last == z3.unsat:
            return last, None
    return last, model


_HASINT = {}


def _has_int(e):
    k = e.get_id()
    r = _HASINT.get(k)
    if r is None:
        st, seen, r = [e], set(), False
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_int(x):
                r = True
                break
            st.extend(x.children())
        _HASINT[k] = r
        _KEEP.append(e)
    return r


def model_value(m, e):
    """Float (and exact Fraction if rational) of e in model m."""
    v = m.eval(e, model_completion=True)
    c = const_of(v)
    if c is not None:
        return c
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


_OPS = {z3.Z3_OP_LT: 1, z3.Z3_OP_LE: 3, z3.Z3_OP_EQ: 2, z3.Z3_OP_GE: 6, z3.Z3_OP_GT: 4}


_NONLIN = {}


def _nonlinear(e):
    """Whether e multiplies or divides by variables."""
    r = _NONLIN.get(e.get_id())
    if r is not None:
        return r
    r, st, seen = False, [e], set()
    while st and not r:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        k = x.decl().kind()
        if k == z3.Z3_OP_MUL:
            r = sum(1 for c in x.children() if vars_of(c)) > 1
        elif k == z3.Z3_OP_DIV:
            r = bool(vars_of(x.arg(1)))
        elif k == z3.Z3_OP_POWER:
            r = bool(vars_of(x))
        st.extend(x.children())
    if len(_NONLIN) > 50000:
        _NONLIN.clear()
        _KEEPNL.clear()
    _NONLIN[e.get_id()] = r
    _KEEPNL.append(e)
    return r


_KEEPNL = []


class Ctx:
    """One path under exploration."""

    def __init__(self, prefix, feas_timeout=2000):
        self.prefix = prefix
        self.trail = []
        self.pending = []       # alternative prefixes discovered on this path
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", feas_timeout)
        self.known_ax = set()
        self.text = False
        self._known = {}
        self.nonlin = False
        self.memo = {}
        self.signs = {}
        self.keep_const = False
        self.forkite = False
        self.opaque = False
        self.inputs = {}        # name -> SymReal / SymBool / concrete value
        self.input_order = []
        self.concretised = 0
        self.text_ids = 0
        self.rounded = {}
        self.deadline = None

    # -- constraints
    def add(self, e):
        if z3.is_true(e):
            return
        self.pc.append(e)
        self._sadd(e)
        self.nonlin = self.nonlin or _nonlinear(e)
        self.learn(e)

    def _sadd(self, e):
        ax, _ = closure_axioms([e])
        for a in ax:
            if a.get_id() not in self.known_ax:
                self.known_ax.add(a.get_id())
                _KEEP.append(a)
                self.nonlin = self.nonlin or _nonlinear(a)
                self.solver.add(a)
        self.solver.add(e)

    def feasible(self, e):
        """False only if pc and e is unsatisfiable."""
        STATS.feas_queries += 1
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        ax, _ = closure_axioms([e])
        for a in ax:
            if a.get_id() not in self.known_ax:
                self.known_ax.add(a.get_id())
                _KEEP.append(a)
                self.solver.add(a)
        self.solver.push()
        self.solver.add(e)
        t0 = time.time()
        r = _tsolve(self.solver)
        self.solver.pop()
        if SLOW and time.time() - t0 > 0.5:
            import sys, traceback
            print("SLOW %.1fs %s" % (time.time() - t0, r), str(e)[:600], [f"{f.name}:{f.lineno}" for f in traceback.extract_stack()[-9:-1]], file=sys.stderr)
        if r == z3.unknown:
            cs = slice_pc(self.pc, vars_of(e)) + [e]
            r, _ = check(cs, 3000)
            if r == z3.unknown:
                STATS.unknown += 1
        return r != z3.unsat

    def known(self, c):
        """True if the path implies c (solver), else False."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (c.get_id(), len(self.pc))
        r = self._known.get(key)
        if r is None:
            i = len(self.trail)
            if i < len(self.prefix):
                d = self.prefix[i]
                assert d[0] == "k", "non-deterministic harness"
                r = d[1]
            else:
                r = self.decided(c, False)
                if r is None:
                    r = self.local(c)
                if r is None:
                    r = not self.feasible(z3.Not(c))
            self.trail.append(("k", r))
            self._known[key] = r
            _KEEP.append(c)
        return r

    # -- signs of polynomials decided on this path
    def varsign(self, v):
        """Possible signs of an atom (1 negative, 2 zero, 4 positive)."""
        if v in _EXPARG or v in _POSCONST:
            return 4
        m = self.signs.get(frozenset({((v, 1),): Fraction(1)}.items()), 7)
        if v in SQ and v.startswith("sqrt"):
            m &= 6
            if m & 2:
                try:
                    n, d = norm(SQ[v])
                    if (self.polysign(n)[0], self.polysign(d)[0]) in ((4, 4), (1, 1)):
                        m &= 4
                except TooBig:
                    pass
        return m

    def polysign(self, n):
        """(mask, key, factor): the sign of n is one of mask; or it is the sign of the
        polynomial behind key, times factor."""
        if not n:
            return 2, None, 1, None
        g, mono, rest = _content(n)
        sign, left = 1, {}
        for v, k in sorted(mono.items()):
            m = self.varsign(v)
            if m == 2:
                return 2, None, 1, None
            if m == 4 or (m == 5 and k % 2 == 0):
                continue
            if m == 1:
                sign = -sign if k % 2 else sign
                continue
            left[v] = 2 - k % 2
        if len(rest) == 1 and not left:
            s = sign * (1 if rest[()] > 0 else -1)
            return (4 if s > 0 else 1), None, 1, None
        if left:
            lm = tuple(sorted(left.items()))
            p = {}
            for m, c in rest.items():
                dm = dict(m)
                for v, k in lm:
                    dm[v] = dm.get(v, 0) + k
                p[tuple(sorted(dm.items()))] = c
            rest = p
        lead = sorted(rest, key=lambda m: (-sum(j for _, j in m), m))[0]
        if rest[lead] < 0:
            sign = -sign
            rest = {m: -c for m, c in rest.items()}
        key = frozenset(rest.items())
        mask = self.signs.get(key, 7)
        if mask == 7 and all(c > 0 for c in rest.values()):
            allm = [self._monosign(m) for m in rest]
            if all(x == 4 for x in allm):
                mask = 4
            elif all(x in (4, 6, 2) for x in allm):
                mask = 4 if 4 in allm else 6
        if sign < 0:
            mask = (mask & 2) | ((mask & 1) << 2) | ((mask & 4) >> 2)
        return mask, key, sign, rest

    def _monosign(self, m):
        out = 4
        for v, k in m:
            s = self.varsign(v)
            if k % 2 == 0:
                s = 4 if s in (1, 4, 5) else 6
            if s == 4 or (out == 2):
                continue
            if s == 6:
                out = 6
            elif s == 2:
                out = 2
            else:
                return 7
        return out

    def atom(self, e):
        """(mask of truth, mask of possible signs, key, factor, rest) of a comparison, or None."""
        k = e.decl().kind()
        op = _OPS.get(k)
        if op is None or e.num_args() != 2 or not z3.is_real(e.arg(0)):
            return None
        try:
            a, b = e.children()
            n, d = norm(a - b) if const_of(b) != 0 else norm(a)
        except TooBig:
            return None
        if len(n) > 40 or len(d) > 40:
            return None
        ds = self.polysign(d)[0]
        if ds not in (1, 4):
            if ds in (5, 7) and op == 2:
                ds = 4
            else:
                return None
        if ds == 1:
            n = {m: -c for m, c in n.items()}
        mask, key, sign, rest = self.polysign(n)
        if key is not None:
            root = _psqrt(key, rest)
            if root is not None:
                if sign < 0:
                    op = (op & 2) | ((op & 1) << 2) | ((op & 4) >> 2)
                op = (op & 2) | (5 if op & 4 else 0)
                mask, key, sign, rest = self.polysign(root)
        return op, mask, key, sign, rest

    def split(self, e):
        """Decide the signs of the factors that hide the sign of a comparison."""
        k = e.decl().kind()
        if k in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
            for c in e.children():
                self.split(c)
            return
        if k not in _OPS or e.num_args() != 2 or not z3.is_real(e.arg(0)):
            return
        try:
            a, b = e.children()
            n, d = norm(a - b) if const_of(b) != 0 else norm(a)
        except TooBig:
            return
        if len(n) > 40 or len(d) > 40:
            return
        if len(d) > 1:
            mask, key, sign, rest = self.polysign(d)
            if mask not in (1, 2, 4):
                if not self.fork(_poly_term(rest) > 0):
                    self.fork(_poly_term(rest) < 0)
        if len(n) > 1:
            _, mono, rest = _content(n)
            if len(rest) > 1 and any(len(m) > 1 or (m and m[0][1] > 1) for m in rest):
                for v in sorted(mono):
                    if self.varsign(v) not in (1, 2, 4):
                        if not self.fork(_ATOMS[v] > 0):
                            self.fork(_ATOMS[v] < 0)

    def decided(self, e, want_term=True):
        """True/False when the signs known on this path settle e, else None
        (or an equivalent canonical condition)."""
        k = e.decl().kind()
        if k == z3.Z3_OP_NOT:
            r = self.decided(e.arg(0), want_term)
            if r is None or isinstance(r, bool):
                return r if r is None else not r
            return z3.Not(r)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            out = []
            for c in e.children():
                r = self.decided(c, want_term)
                if r is (k == z3.Z3_OP_OR):
                    return r
                if isinstance(r, bool):
                    continue
                out.append(c if r is None else r)
            if not out:
                return k == z3.Z3_OP_AND
            if not want_term:
                return None
            return (z3.And if k == z3.Z3_OP_AND else z3.Or)(*out)
        t = self.atom(e)
        if t is None:
            return None
        op, mask, key, sign, rest = t
        if not mask & ~op:
            return True
        if not mask & op:
            return False
        if not want_term:
            return None
        p = _poly_term({m: rest[m] for m in sorted(rest)})
        if sign < 0:
            op = (op & 2) | ((op & 1) << 2) | ((op & 4) >> 2)
        mm = self.signs.get(key, 7)
        op &= mm                      # drop the impossible
        if op == 5:
            return p != 0
        return {1: p < 0, 2: p == 0, 3: p <= 0, 4: p > 0, 6: p >= 0}[op]

    def learn(self, e, val=True):
        k = e.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self.learn(e.arg(0), not val)
        if (k == z3.Z3_OP_AND and val) or (k == z3.Z3_OP_OR and not val):
            for c in e.children():
                self.learn(c, val)
            return
        t = self.atom(e)
        if t is None or t[2] is None:
            return
        op, mask, key, sign, rest = t
        if not val:
            op = 7 & ~op
        if sign < 0:
            op = (op & 2) | ((op & 1) << 2) | ((op & 4) >> 2)
        self.signs[key] = self.signs.get(key, 7) & op

    def local(self, e):
        """Decides a non-linear condition from the constraints over its own variables alone, or None."""
        f = z3.simplify(e)
        if not self.nonlin and not _nonlinear(f):
            return None
        vs = frozenset(vars_of(f))
        if len(vs) > 8:
            return None
        cs = [c for c in self.pc if vs.issuperset(vars_of(c))]
        for v in vs:
            cs += [c for c in _DEFS.get(v, ()) if vs.issuperset(vars_of(c))]
        if not cs:
            return None
        for cond, out in ((f, False), (z3.Not(f), True)):
            s = z3.Tactic("qfnra-nlsat").solver()
            s.set("timeout", 400)
            s.add(*cs)
            s.add(cond)
            STATS.feas_queries += 1
            if _tsolve(s) == z3.unsat:
                return out
        return None

    def fork(self, e):
        f = z3.simplify(e)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        self.split(e)
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
            assert d[0] in "bd", "non-deterministic harness"
            self.trail.append(d)
            if d[0] == "b":
                r = self.decided(e)
                if r is not None and not isinstance(r, bool):
                    e = r
                self.add(e if d[1] else z3.Not(e))
            return d[1]
        STATS.decisions += 1
        r = self.decided(e)
        if isinstance(r, bool):
            self.trail.append(("d", r))
            return r
        loc = self.local(e)
        if loc is not None:
            self.trail.append(("d", loc))
            return loc
        if r is not None:
            e = r
        ne = z3.Not(e)
        if self.feasible(e):
            if self.feasible(ne):
                STATS.branches += 1
                self.pending.append(self.trail + [("b", False)])
            self.trail.append(("b", True))
            self.add(e)
            return True
        # pc is satisfiable by construction (or unknown): the other side
        self.trail.append(("b", False))
        self.add(ne)
        return False

    def concretise_int(self, e):
        c = const_of(z3.simplify(e))
        if c is not None:
            return int(c)
        while True:
            i = len(self.trail)
            if i < len(self.prefix):
                d = self.prefix[i]
                assert d[0] == "v", "non-deterministic harness"
                self.trail.append(d)
                if d[2]:
                    self.add(e == d[1])
                    return d[1]
                self.add(e != d[1])
                continue
            STATS.decisions += 1
            STATS.branches += 1
            r, m = check(list(self.pc) + [z3.RealVal(0) == 0 * e], 5000, True)
            if r == z3.unsat:
                raise PathEnd()
            if r == z3.unknown:
                STATS.unknown += 1
                raise EngineLimit("cannot concretise an integer")
            v = model_value(m, e)
            if v is None or v.denominator != 1:
                raise EngineLimit("non-integral index")
            v = int(v)
            if self.feasible(e != v):
                self.pending.append(self.trail + [("v", v, False)])
            self.trail.append(("v", v, True))
            self.add(e == v)
            return v

    def concretise_floor(self, x):
        """One value of floor(x), all of them explored."""
        def within(v):
            out = []
            for c in (x >= v, x < v + 1):
                r = self.decided(c)
                out.append(c if r is None else z3.BoolVal(r) if isinstance(r, bool) else r)
            return z3.simplify(z3.And(*out))
        while True:
            i = len(self.trail)
            if i < len(self.prefix):
                d = self.prefix[i]
                assert d[0] == "v", "non-deterministic harness"
                self.trail.append(d)
                w = within(d[1])
                if d[2]:
                    self.add(w)
                    return d[1]
                self.add(z3.Not(w))
                continue
            STATS.decisions += 1
            STATS.branches += 1
            r, m = check(list(self.pc) + [z3.RealVal(0) == 0 * x], 5000, True)
            if r == z3.unsat:
                raise PathEnd()
            if r == z3.unknown:
                STATS.unknown += 1
                raise EngineLimit("cannot concretise a floor")
            f = model_value(m, x)
            if f is None:
                raise EngineLimit("cannot concretise a floor")
            v = f.numerator // f.denominator
            w = within(v)
            if self.feasible(z3.Not(w)):
                self.pending.append(self.trail + [("v", v, False)])
            self.trail.append(("v", v, True))
            self.add(w)
            return v

    def choose(self, options):
        """Enumerate a finite choice (explored exhaustively)."""
        for k in range(len(options) - 1):
            i = len(self.trail)
            if i < len(self.prefix):
                d = self.prefix[i]
                assert d[0] == "c", "non-deterministic harness"
                self.trail.append(d)
                if d[1]:
                    return options[k]
                continue
            STATS.decisions += 1
            STATS.branches += 1
            self.pending.append(self.trail + [("c", False)])
            self.trail.append(("c", True))
            return options[k]
        return options[-1]

    def to_float(self, s):
        if self.text:
            return self.sentinel(s)
        c = const_of(z3.simplify(s.e))
        if c is not None:
            return c.numerator / c.denominator
        # concretise: keep one value, note the loss of generality
        self.concretised += 1
        STATS.concretised += 1
        r, m = check(list(self.pc) + [z3.RealVal(0) == 0 * s.e], 5000, True)
        if r != z3.sat:
            raise EngineLimit("cannot concretise a real")
        v = model_value(m, s.e)
        f = float(v)
        self.add(s.e == q(f) if Fraction(repr(f)) == v else z3.And(s.e > q(f - 1e-9), s.e < q(f + 1e-9)))
        return f

    # -- text sentinels
    def sentinel(self, s):
        e = z3.simplify(s.e)
        c = const_of(e)
        if c is not None:
            return c.numerator / c.denominator
        for f, t in SENTINELS.items():
            if t.e.eq(e):
                return f
        if self.fork(e == 0):
            return 0.0
        neg = self.fork(e < 0)
        n = self.text_ids
        self.text_ids += 1
        if n >= 150 * 9:
            raise EngineLimit("too many symbolic numbers in text")
        f = float("%d.2345678912345678e+%d" % (1 + n // 150, 150 + n % 150))
        base = mk(-e) if neg else SymReal(e)
        SENTINELS[f] = base
        SENTINELS[-f] = mk(-base.e)
        return -f if neg else f


def fromtext(text, f):
    """The symbolic value a printed number stands for, rounded as it was printed (f: its plain value)."""
    t = SENTINELS.get(f)
    if t is not None or not 1e140 < abs(f) < 1e305:
        return t
    for s, v in list(SENTINELS.items()):
        if abs(f - s) <= 0.5 * abs(s):
            m = text.strip().lstrip("+-").lower()
            if "e" not in m and "." in m:
                k = len(m.split(".")[1])
                if abs(f - s) <= 1e-15 * abs(s):
                    return rounded(v, None, k)
                continue
            k = len(m.split("e")[0].replace(".", "").lstrip("0"))
            if float("%.*e" % (k - 1, s)) == f:
                return rounded(v, k, None)
    return None


def rounded(v, digits, decimals):
    """v as printed with so many significant digits, or so many decimals."""
    pos = z3.simplify(v.e)
    key = (pos.get_id(), digits, decimals)
    if key in CTX.rounded:
        return CTX.rounded[key][0]
    r = fresh("round")
    out = SymReal(r)
    CTX.rounded[key] = (out, pos)
    a = z3.If(pos >= 0, pos, -pos)
    if decimals is not None:
        u = z3.Q(1, 10 ** decimals)
        CTX.add(r == z3.ToReal(z3.ToInt(pos * 10 ** decimals + z3.Q(1, 2))) * u)
    else:
        u = z3.Q(1, 2 * 10 ** (digits - 1))
        CTX.add(z3.And(r - pos <= a * u, pos - r <= a * u))
        s = z3.If(pos >= 0, z3.RealVal(1), z3.RealVal(-1))
        n = 10 ** (digits - 1)
        CTX.add(z3.Implies(z3.And(a >= 1, a <= 9), r == s * z3.ToReal(z3.ToInt(a * n + z3.Q(1, 2))) / n))
    return out


def explore(fn, on_path, max_paths=100000, deadline=None, feas_timeout=2000):
    """Run fn(ctx) on every feasible path.  Returns True if exhaustive."""
    global CTX
    work = [[]]
    while work:
        if deadline and time.time() > deadline:
            return False
        if STATS.paths >= max_paths:
            return False
        prefix = work.pop()
        SENTINELS.clear()
        del HINTS[:]
        ctx = Ctx(prefix, feas_timeout)
        ctx.deadline = deadline
        CTX = ctx
        try:
            try:
                fn(ctx)
                ended = True
            except PathEnd:
                ended = False
            except Budget:
                return False
            if ended:
                STATS.paths += 1
                on_path(ctx)
            work.extend(ctx.pending)
        finally:
            CTX = None
    return True
