"""Property harnesses: one function run symbolically on every path and concretely
for replay and for validating each path's witness against the real package."""
import contextlib
import fnmatch
import hashlib
import io
import json
import math
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import core, npshim
from .core import SymReal, SymBool, sym
from .loader import RealWorld, SymWorld, patch, unpatch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_SW = None
_RW = None


def symworld():
    global _SW
    if _SW is None:
        _SW = SymWorld()
    return _SW


def realworld():
    global _RW
    if _RW is None:
        _RW = RealWorld()
    return _RW


class Violated(Exception):
    """A proof obligation is false (concrete mode), or has a counterexample."""

    def __init__(self, label, detail=""):
        super().__init__("%s %s" % (label, detail))
        self.label = label
        self.detail = detail


class Skip(Exception):
    """The concrete run left the assumptions of the harness."""


class H:
    """What a harness sees.  mode is 'sym' or 'real'."""

    # -- common
    def __init__(self, params):
        self.p = params
        self.undo = []
        self.obs = []
        self.labels = {}
        self.notes = []
        self.scratch = None

    def path(self, name):
        """A file of this run's scratch directory."""
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix="verif-")
        return os.path.join(self.scratch, name)

    def quiet(self):
        """Discard what is printed."""
        return contextlib.redirect_stdout(io.StringIO())

    def mod(self, name):
        full = "diffpy.srmise" + ("." + name if name else "")
        return self.world.load(full)

    def cls(self, mod, name):
        return getattr(self.mod(mod), name)

    def stub(self, orig, replacement):
        self.undo += patch(self.world, orig, replacement)

    def setattr(self, obj, name, val):
        old = getattr(obj, name)
        setattr(obj, name, val)
        self.undo.append((obj, name, old))

    def close(self):
        for u in reversed(self.undo):
            if hasattr(u[0], "__dict__") and not isinstance(u[0], type) and u[1] in u[0].__dict__:
                u[0].__dict__[u[1]] = u[2]
            else:
                setattr(u[0], u[1], u[2])
        self.undo = []
        if self.scratch is not None:
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None

    def raises(self, f, *exc):
        """Name of the exception class raised by f() among exc, else None."""
        try:
            f()
        except exc as e:
            return type(e).__name__
        return None

    def reals(self, name, n, **k):
        return [self.real("%s%d" % (name, i), **k) for i in range(n)]

    def array(self, name, n, **k):
        return self.arr(self.reals(name, n, **k))

    def increasing(self, name, n, positive=False, mingap=None, **k):
        xs = self.reals(name, n, **k)
        if positive and xs:
            self.assume(xs[0] > 0)
        for a, b in zip(xs, xs[1:]):
            self.assume(b > a)
        return self.arr(xs)

    def deriv(self, f, args, i):
        """d f(*args) / d args[i]; f may return a sequence."""
        raise NotImplementedError

    def prove_all(self, conds, label):
        for c in conds:
            self.prove(c, label)


class SymH(H):
    mode = "sym"

    def __init__(self, params, ctx, run):
        super().__init__(params)
        self.ctx = ctx
        self.run = run
        self.world = symworld()
        self.np = npshim.shim

    # inputs
    def real(self, name, lo=None, hi=None, nonneg=False, pos=False, nonzero=False):
        if name in self.ctx.inputs:
            raise RuntimeError("duplicate input " + name)
        v = z3.Real(name)
        s = SymReal(v)
        self.ctx.inputs[name] = s
        for c in ([v >= core.q(lo)] if lo is not None else []) + ([v <= core.q(hi)] if hi is not None else []) \
                + ([v >= 0] if nonneg else []) + ([v > 0] if pos else []) + ([v != 0] if nonzero else []):
            self.ctx.add(c)
        return s

    def int(self, name, lo, hi):
        v = z3.Int(name)
        s = SymReal(z3.ToReal(v), "i")
        self.ctx.inputs[name] = s
        self.ctx.add(v >= lo)
        self.ctx.add(v <= hi)
        return s

    def bool(self, name):
        v = z3.Bool(name)
        s = SymBool(v)
        self.ctx.inputs[name] = s
        return s

    def choice(self, name, options):
        k = self.ctx.choose(list(range(len(options))))
        self.ctx.inputs[name] = k
        return options[k]

    def perm(self, name, n):
        left, out = list(range(n)), []
        for i in range(n):
            out.append(left.pop(left.index(self.choice("%s.%d" % (name, i), list(left)))))
        return out

    def arr(self, items):
        r = np.empty(np.shape(items) if not any(sym(i) for i in items) else (len(items),), dtype=object)
        r[...] = items if not any(sym(i) for i in items) else 0
        if any(sym(i) for i in items):
            for i, x in enumerate(items):
                r[i] = x
        for idx in np.ndindex(*r.shape):
            if not sym(r[idx]):
                r[idx] = np.float64(r[idx])
        return r.view(npshim.SArr)

    def iarr(self, rows):
        r = np.empty(np.shape(np.array(rows, dtype=object)), dtype=object)
        r[...] = np.array(rows, dtype=object)
        return r.view(npshim.SArr)

    # logic
    def assume(self, c):
        e = core.bexpr(c)
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise core.PathEnd()
        replaying = len(self.ctx.trail) < len(self.ctx.prefix)
        self.ctx.add(e)
        if not replaying:
            if not self.ctx.feasible(z3.BoolVal(True)):
                raise core.PathEnd()

    def eq(self, a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, (list, tuple)):
            if np.shape(a) != np.shape(b):
                return False
            r = True
            for x, y in zip(np.array(a, dtype=object).flat, np.array(b, dtype=object).flat):
                r = npshim._and(r, self.eq(x, y))
            return r
        if core.is_special(a) or core.is_special(b):
            if sym(a) or sym(b):
                return False
            return bool(a == b) or (a != a and b != b)
        if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
            return core.mkb(core.bexpr(a) == core.bexpr(b))
        if not sym(a) and not sym(b):
            if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
                return _close(a, b)
            return bool(a == b)
        if core.lift(a) is None or core.lift(b) is None:
            return False
        return core.mkb(core.lift(a) == core.lift(b))

    def same(self, a, b):
        """Equality without tolerance, for values copied rather than computed."""
        return self.eq(a, b)

    exact = same

    def text(self):
        """Symbolic numbers may be printed and read back from here on."""
        self.ctx.text = True

    def le(self, a, b):
        return a <= b

    def lt(self, a, b):
        return a < b

    def andb(self, *cs):
        r = True
        for c in cs:
            r = npshim._and(r, c)
        return r

    def orb(self, *cs):
        r = False
        for c in cs:
            r = npshim._or(r, c)
        return r

    def notb(self, c):
        return npshim._not(c)

    def implies(self, a, b):
        return npshim._or(npshim._not(a), b)

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def exp(self, x):
        return npshim._exp(x)

    def sqrt(self, x):
        return core.sqrt(x) if sym(x) else npshim._sqrt(x)

    def sin(self, x): return npshim._sin(x)
    def cos(self, x): return npshim._cos(x)
    def arcsin(self, x): return npshim._arcsin(x)

    def hint_sqrt(self, *terms):
        """Nonnegative terms that may be the square root of something (each use is verified)."""
        for t in terms:
            self.prove(t >= 0, "hint is non-negative")
            core.HINTS.append(t)

    @property
    def pi(self): return core.pi()

    @property
    def ln2(self): return core.log_const(2)

    def isnan(self, x):
        return (not sym(x)) and x != x

    def observe(self, name, v):
        self.obs.append((name, v))

    def derivative(self, y, x):
        from .ad import diff
        if not sym(y):
            return 0.0
        return core.mk(diff(y.e, x.e))

    def deriv(self, f, args, i):
        y = f(*args)
        if isinstance(y, np.ndarray):
            return self.arr([self.derivative(v, args[i]) for v in y.flat])
        return self.derivative(y, args[i])

    def prove(self, c, label):
        self.run.prove(self, c, label)

    def prove_deriv(self, a, d, label):
        self.prove_eq(a, d, label)

    def prove_eq(self, a, b, label):
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            if np.shape(a) != np.shape(b):
                self.prove(False, label + " (shape)")
                return
            for x, y in zip(np.array(a, dtype=object).flat, np.array(b, dtype=object).flat):
                self.prove_eq(x, y, label)
            return
        self.run.prove(self, self.eq(a, b), label, pair=(a, b))

    def file(self, data):
        return data


class RealH(H):
    """Concrete execution of the same harness on the unmodified package."""
    mode = "real"

    def __init__(self, params, values, tol=1e-6):
        super().__init__(params)
        self.values = values
        self.world = realworld()
        self.np = np
        self.tol = tol
        self.used = {}

    def real(self, name, lo=None, hi=None, nonneg=False, pos=False, nonzero=False):
        v = float(self.values.get(name, 0.0))
        self.used[name] = v
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (nonneg and v < 0) \
                or (pos and v <= 0) or (nonzero and v == 0):
            raise Skip(name)
        return np.float64(v)

    def int(self, name, lo, hi):
        v = int(self.values.get(name, lo))
        if not lo <= v <= hi:
            raise Skip(name)
        return v

    def bool(self, name):
        return bool(self.values.get(name, False))

    def choice(self, name, options):
        k = int(self.values.get(name, 0))
        if k >= len(options):
            raise Skip(name)
        return options[k]

    perm = SymH.perm

    def arr(self, items):
        return np.array(items, dtype=float)

    def iarr(self, rows):
        return np.array(rows, dtype=int)

    def assume(self, c):
        if not bool(c):
            raise Skip("assume")

    def eq(self, a, b):
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            if np.shape(a) != np.shape(b):
                return False
            return all(self.eq(x, y) for x, y in zip(np.asarray(a, dtype=object).flat,
                                                     np.asarray(b, dtype=object).flat))
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a == b
        return _close(a, b, self.tol)

    def same(self, a, b):
        return self.eq(a, b)

    def exact(self, a, b):
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            if np.shape(a) != np.shape(b):
                return False
            return all(self.exact(x, y) for x, y in zip(np.asarray(a, dtype=object).flat, np.asarray(b, dtype=object).flat))
        if isinstance(a, (float, np.floating)) and a != a:
            return isinstance(b, (float, np.floating)) and b != b
        return bool(a == b)

    def text(self):
        pass

    def le(self, a, b):
        return bool(a <= b) or _close(a, b, self.tol)

    def lt(self, a, b):
        return bool(a < b) or _close(a, b, self.tol)

    def andb(self, *cs):
        return all(bool(c) for c in cs)

    def orb(self, *cs):
        return any(bool(c) for c in cs)

    def notb(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def exp(self, x): return np.exp(x)
    def sqrt(self, x): return np.sqrt(x)
    def sin(self, x): return np.sin(x)
    def cos(self, x): return np.cos(x)
    def arcsin(self, x): return np.arcsin(x)
    def hint_sqrt(self, *terms): pass
    pi = np.pi
    ln2 = np.log(2)

    def isnan(self, x):
        return bool(np.isnan(x))

    def observe(self, name, v):
        self.obs.append((name, v))

    def deriv(self, f, args, i):
        def at(d):
            a = list(args)
            a[i] = a[i] + d
            return np.asarray(f(*a), dtype=float)
        # Ridders' extrapolation at several starting steps, element by element; two
        # neighbouring steps have to agree, the smallest such pair counts
        ests = []
        for e0 in (1e-5, 1e-4, 1e-3, 1e-2, 1e-1):
            e, tab, best, err = e0 * max(1.0, abs(float(args[i]))) * 0.05, [], None, None
            for k in range(6):
                row = [(at(e) - at(-e)) / (2 * e)]
                fac = 1.96
                for j in range(k):
                    row.append((row[j] * fac - tab[-1][j]) / (fac - 1))
                    fac *= 1.96
                    d = np.maximum(abs(row[j + 1] - row[j]), abs(row[j + 1] - tab[-1][j]))
                    d = np.where(np.isfinite(d), d, np.inf)
                    if best is None:
                        best, err = row[j + 1], d
                    else:
                        best = np.where(d < err, row[j + 1], best)
                        err = np.minimum(d, err)
                tab.append(row)
                e /= 1.4
            ests.append(best)
        best, ok = ests[0] * np.nan, np.zeros(np.shape(ests[0]), dtype=bool)
        for x, y in reversed(list(zip(ests, ests[1:]))):
            agree = abs(x - y) <= 1e-5 * np.maximum(1.0, abs(x))
            best = np.where(agree, y, best)
            ok = ok | agree
        best = np.where(ok, best, np.nan)
        return best if best.ndim else float(best)

    def prove_deriv(self, a, d, label):
        """a equals the numerical derivative d (nan: could not be computed)."""
        self.labels[label] = self.labels.get(label, 0) + 1
        if not np.isnan(d) and not _close(a, d, 1e-3 if self.tol else 0):
            raise Violated(label, "%r != %r" % (a, d))

    def prove(self, c, label):
        if isinstance(c, np.ndarray):
            c = c.all()
        self.labels[label] = self.labels.get(label, 0) + 1
        if not bool(c):
            raise Violated(label)

    def prove_eq(self, a, b, label):
        if not self.eq(a, b):
            raise Violated(label, "%r != %r" % (a, b))
        self.labels[label] = self.labels.get(label, 0) + 1


def _close(a, b, tol=1e-6):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    if a in (math.inf, -math.inf) or b in (math.inf, -math.inf):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b)) if tol else a == b


def run_real(fn, params, values, tol=1e-6):
    """('ok'|'viol'|'exc'|'skip', label, detail, H)"""
    h = RealH(params, values, tol)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            try:
                fn(h)
                return "ok", None, None, h
            except Skip as e:
                return "skip", str(e), None, h
            except Violated as e:
                return "viol", e.label, e.detail, h
            except Exception as e:
                return "viol", "raises " + type(e).__name__, _where(e), h
            finally:
                h.close()


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "%s: %s at %s" % (type(e).__name__, str(e)[:200],
                             ";".join("%s:%s:%d" % (os.path.basename(t.filename), t.name, t.lineno) for t in tb[-3:]))


class ScenarioRun:
    """All paths of one scenario."""

    def __init__(self, prop, name, fn, params, opts):
        self.prop, self.name, self.fn, self.params = prop, name, fn, params
        self.opts = opts
        self.viol = []         # (label, values, detail)
        self.inconcl = []      # (label, detail)
        self.undecided = []
        self.shown = False
        self.stop = None
        self.divergent = []
        self.validated = 0
        self.obs_checked = 0
        self.obligations = {}
        self.samples = []
        self.limited = {}
        self.seen_labels = set()
        self.rng = random.Random(opts.get("seed", 1))

    def prove(self, h, c, label, pair=None):
        ctx = h.ctx
        self.obligations[label] = self.obligations.get(label, 0) + 1
        if isinstance(c, np.ndarray):
            c = h.andb(*list(c.flat))
        if isinstance(c, SymReal):
            c = c != 0
        if not isinstance(c, SymBool):
            core.STATS.trivial += 1
            if bool(c):
                return
            # false on this whole path: is the path really reachable?
            self.counterexample(h, [], label, pair)
            raise core.PathEnd()
        if pair is not None and core.lift(pair[0]) is not None and core.lift(pair[1]) is not None:
            if core.poly_equal(core.lift(pair[0]), core.lift(pair[1])):
                core.STATS.norm_discharged += 1
                return
        neg = z3.simplify(z3.Not(c.e))
        ax, vs = core.closure_axioms([neg])
        pc = core.slice_pc(ctx.pc, vs)
        core.STATS.proof_queries += 1
        r, _ = core.check(pc + [neg], self.opts.get("timeout", 8000))
        if r == z3.unsat:
            return
        if r == z3.unknown:
            # smaller: concretise some inputs and decide those instances
            r = self.fallback(h, pc, neg, label, pair)
            if r == "held":
                self.undecided.append(label)
                return
            if r == "viol":
                raise core.PathEnd()
        self.counterexample(h, [neg], label, pair)
        raise core.PathEnd()

    def fallback(self, h, pc, neg, label, pair):
        ctx = h.ctx
        reals = [s for n, s in ctx.inputs.items() if isinstance(s, SymReal)]
        held = 0
        for k in range(6):
            core.STATS.fallback_cases += 1
            fix = []
            r0, m = core.check(pc + [z3.And([z3.And(s.e >= -50, s.e <= 50) for s in reals] or [z3.BoolVal(True)])]
                               + self._noise(reals, k), 5000, True)
            if r0 != z3.sat:
                continue
            for s in reals:
                v = core.model_value(m, s.e)
                if v is not None and self.rng.random() < 0.8:
                    fix.append(s.e == core.q(v.limit_denominator(1000)))
            r, m2 = core.check(pc + fix + [neg], 5000, True)
            if r == z3.unsat:
                held += 1
            elif r == z3.sat:
                if self.try_model(h, m2, label):
                    return "viol"
        return "held" if held else "none"

    def _noise(self, reals, k):
        out = []
        for s in reals:
            if self.rng.random() < 0.5:
                c = Fraction(self.rng.randint(-20, 20), 4)
                out.append(s.e >= core.q(c) if self.rng.random() < 0.5 else s.e <= core.q(c))
        return out if k else []

    def values_of(self, h, m):
        vals = {}
        for n, s in h.ctx.inputs.items():
            if isinstance(s, SymReal):
                v = core.model_value(m, s.e)
                if v is None:
                    vals[n] = 0.0
                elif s.kind == "i":
                    vals[n] = int(v)
                else:
                    vals[n] = v.numerator / v.denominator
            elif isinstance(s, SymBool):
                vals[n] = bool(z3.is_true(m.eval(s.e, model_completion=True)))
            else:
                vals[n] = s
        return vals

    def try_model(self, h, m, label):
        vals = self.values_of(h, m)
        st, lab, det, _ = run_real(self.fn, self.params, vals)
        if st == "viol":
            self.viol.append((lab, vals, det or "", label))
            if not any(fnmatch.fnmatchcase(self.name, s) and fnmatch.fnmatchcase(lab, l)
                       for s, l in self.opts.get("known", ())):
                # enough to report: do not explore much further
                h.ctx.deadline = min(h.ctx.deadline or 1e18, time.time() + 30)
                self.stop = self.stop or time.time() + 30
            return True
        return False

    def counterexample(self, h, extra, label, pair=None):
        """Look for a model that fails on the real package too."""
        ctx = h.ctx
        if (label, "c") in self.seen_labels and len(self.viol) >= 3:
            return
        self.seen_labels.add((label, "c"))
        reals = [s for n, s in ctx.inputs.items() if isinstance(s, SymReal)]
        box = [z3.And(s.e >= -100, s.e <= 100) for s in reals]
        mar = []
        if pair is not None and core.lift(pair[0]) is not None and core.lift(pair[1]) is not None:
            d = core.lift(pair[0]) - core.lift(pair[1])
            mar = [z3.Or(d > z3.Q(1, 50), d < z3.Q(-1, 50))]
        tries = 0
        anysat = False
        smallbox = [z3.Or(s.e == 0, z3.And(s.e >= z3.Q(1, 4), s.e <= 10), z3.And(s.e <= z3.Q(-1, 4), s.e >= -10)) for s in reals]
        plans = [box + mar, smallbox + mar, box, []]
        for k in range(10):
            plans.append(smallbox + mar + self._noise(reals, 1))
            plans.append(box + self._noise(reals, 1))
        t0 = time.time()
        for pl in plans:
            if time.time() - t0 > self.opts.get("cex_s", 40):
                break
            r, m = core.check(list(ctx.pc) + extra + pl, 4000, True)
            if r == z3.unsat and pl == []:
                break
            if r != z3.sat:
                continue
            anysat = True
            tries += 1
            if self.try_model(h, m, label):
                return
        if not anysat:
            r, m = core.check(list(ctx.pc) + extra, 20000, True)
            if r == z3.unsat:
                return     # unreachable path or proved after all
            if r == z3.sat and self.try_model(h, m, label):
                return
            if r == z3.unknown:
                self.undecided.append(label)
                return
        self.inconcl.append((label, "counterexample did not reproduce on the real code (%d tries)" % tries))

    def body(self, ctx):
        if self.stop:
            if time.time() > self.stop:
                raise core.Budget()
            ctx.deadline = min(ctx.deadline or 1e18, self.stop)
        h = SymH(self.params, ctx, self)
        ctx.h = h
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.fn(h)
        except core.EngineLimit as e:
            k = "engine limit: %s" % e
            self.limited[k] = self.limited.get(k, 0) + 1
            self.limit_probe(h)
            raise core.PathEnd()
        except Violated as e:
            self.counterexample(h, [], e.label)
            raise core.PathEnd()
        except (core.PathEnd, core.Budget):
            raise
        except RecursionError:
            raise
        except Exception as e:
            if self.opts.get("debug") and not self.shown:
                self.shown = True
                traceback.print_exc()
            self.obligations["no unexpected exception"] = self.obligations.get("no unexpected exception", 0) + 1
            n = len(self.inconcl)
            self.counterexample(h, [], "raises %s (%s)" % (type(e).__name__, _where(e)))
            raise core.PathEnd()
        finally:
            h.close()

    def limit_probe(self, h):
        """A path the engine cannot follow: run its witness concretely."""
        r, m = core.check(list(h.ctx.pc), 4000, True)
        if r == z3.sat:
            self.try_model(h, m, "engine limit witness")

    def on_path(self, ctx):
        h = ctx.h
        if self.validated >= self.opts.get("max_validate", 400):
            return
        reals = [s for n, s in ctx.inputs.items() if isinstance(s, SymReal)]
        box = [z3.And(s.e >= -100, s.e <= 100) for s in reals]
        r, m = core.check(list(ctx.pc) + box, 2000, True)
        if r != z3.sat:
            r, m = core.check(list(ctx.pc), 2000, True)
        if r != z3.sat:
            return
        vals = self.values_of(h, m)
        if len(self.samples) < 2:
            self.samples.append({k: (float(v) if isinstance(v, float) else v) for k, v in vals.items()})
        st, lab, det, rh = run_real(self.fn, self.params, vals)
        if st == "ok":
            self.validated += 1
            # observed values agree with the encoding
            bad = None
            for (n1, v1), (n2, v2) in zip(h.obs, rh.obs):
                a = v1
                if isinstance(v1, SymReal):
                    mv = core.model_value(m, v1.e)
                    if mv is None or core.vars_of(v1.e) & set(core._DEFS):
                        continue
                    a = float(mv)
                elif isinstance(v1, SymBool):
                    a = z3.is_true(m.eval(v1.e, model_completion=True))
                self.obs_checked += 1
                if not _close_any(a, v2):
                    bad = (n1, repr(a)[:80], repr(v2)[:80])
            if bad:
                self.divergent.append({"obs": bad, "inputs": vals})
        elif st == "viol":
            self.divergent.append({"label": lab, "detail": det, "inputs": vals})

    def go(self):
        core.STATS.__init__()
        core.reset_defs()
        t = time.time()
        dl = t + self.opts.get("budget_s", 300)
        ex = core.explore(self.body, self.on_path, self.opts.get("max_paths", 20000), dl,
                          self.opts.get("feas_timeout", 2000))
        st = core.STATS
        # a divergent witness that fails robustly on the real code is a violation of its own
        for d in list(self.divergent):
            if "label" in d and self.confirm(d):
                self.viol.append((d["label"], d["inputs"], d["detail"] or "", "path witness"))
        return dict(
            scenario=self.name, params=_jsonable(self.params), exhaustive=bool(ex), paths=st.paths,
            decisions=st.decisions, branches=st.branches, feas=st.feas_queries,
            queries=st.proof_queries, norm=st.norm_discharged, trivial=st.trivial,
            solver_s=round(st.solver_s, 3), unknown=st.unknown, concretised=st.concretised,
            fallback=st.fallback_cases, validated=self.validated, obs_checked=self.obs_checked,
            obligations=self.obligations, samples=self.samples, viol=self.viol, inconcl=self.inconcl,
            undecided=sorted(set(self.undecided)), nundecided=len(self.undecided),
            divergent=[_jsonable(d) for d in self.divergent[:5]], ndivergent=len(self.divergent),
            limited=self.limited, wall=round(time.time() - t, 2))

    def confirm(self, d):
        """The failure survives small perturbations of the witness (not rounding)."""
        n = 0
        for k in range(5):
            vals = {a: (b * (1 + 1e-7 * self.rng.uniform(-1, 1)) if isinstance(b, float) else b)
                    for a, b in d["inputs"].items()}
            st, lab, det, _ = run_real(self.fn, self.params, vals, 1e-5)
            if st == "viol":
                n += 1
        return n == 5 and run_real(self.fn, self.params, d["inputs"], 1e-5)[0] == "viol"


def _close_any(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    try:
        return _close(float(a), float(b), 1e-5)
    except (TypeError, ValueError):
        return True


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(i) for i in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, np.generic):
        return x.item()
    return repr(x)[:200]
