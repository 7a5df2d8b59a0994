"""Symbolic differentiation of solver terms (the reference derivative)."""
import z3

from . import core

_C = {}


def diff(e, x):
    key = (e.get_id(), x.get_id())
    r = _C.get(key)
    if r is None:
        r = z3.simplify(_diff(e, x))
        _C[key] = r
        core._KEEP.append(e)
        core._KEEP.append(x)
    return r


def _fun_of(name):
    for fn, lst in core._FUN.items():
        for a, v in lst:
            if v.decl().name() == name:
                return fn, a, v
    return None


_Z = None


def _diff(e, x):
    zero = z3.RealVal(0)
    if e.eq(x):
        return z3.RealVal(1)
    if core.const_of(e) is not None:
        return zero
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_UNINTERPRETED and not ch:
        f = _fun_of(e.decl().name())
        if f is None:
            return zero
        fn, a, v = f
        da = diff(a, x)
        if core.const_of(da) == 0:
            return zero
        if fn == "exp":
            return e * da
        if fn == "sqrt":
            return da / (2 * e)
        if fn == "log":
            return da / a
        if fn == "sin":
            return core.cos(core.SymReal(a)).e * da
        if fn == "cos":
            return -core.sin(core.SymReal(a)).e * da
        if fn == "arcsin":
            return da / core.sqrt(core.SymReal(1 - a * a)).e
        raise core.EngineLimit("derivative of " + fn)
    if k == z3.Z3_OP_ADD:
        return z3.Sum([diff(c, x) for c in ch])
    if k == z3.Z3_OP_SUB:
        r = diff(ch[0], x)
        for c in ch[1:]:
            r = r - diff(c, x)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -diff(ch[0], x)
    if k == z3.Z3_OP_MUL:
        terms = []
        for i, c in enumerate(ch):
            d = diff(c, x)
            if core.const_of(d) == 0:
                continue
            t = d
            for j, o in enumerate(ch):
                if j != i:
                    t = t * o
            terms.append(t)
        return z3.Sum(terms) if terms else zero
    if k == z3.Z3_OP_DIV:
        n, d = ch
        dn, dd = diff(n, x), diff(d, x)
        if core.const_of(dd) == 0:
            return dn / d
        return (dn * d - n * dd) / (d * d)
    if k == z3.Z3_OP_POWER:
        p = core.const_of(ch[1])
        if p is not None and p.denominator == 1 and p >= 1:
            t = z3.RealVal(int(p))
            for _ in range(int(p) - 1):
                t = t * ch[0]
            return t * diff(ch[0], x)
    if k == z3.Z3_OP_ITE:
        return z3.If(ch[0], diff(ch[1], x), diff(ch[2], x))
    if k in (z3.Z3_OP_TO_REAL,):
        return zero
    raise core.EngineLimit("derivative of %s" % e.decl().name())
