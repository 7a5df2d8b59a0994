"""Fitting a cluster, whatever the optimiser does."""
import itertools

import scipy.optimize

from checks.funcs import *  # noqa: F401,F403
from checks.C10 import evaluator

FUNCTIONS = ["modelcluster.ModelCluster.fit/estimatepeak/cleanfit/quality/value", "modelparts.ModelParts.fit/residual/residual_jacobian/pack_freepars/unpack_freepars",
             "modelevaluators.aic.AIC", "modelevaluators.aicc.AICc"]
BOUNDS = ("clusters of 2 to 4 points within data of up to 5, at most 2 (quick) / 3 peaks of constant height and a constant baseline, every set of free parameters and removable flags chosen, "
          "all real data; the optimiser is a stub that visits arbitrary parameters and then returns arbitrary ones (success, failure), raises, or has no Jacobian to use")


def hat(h, idx, est=None):
    """Peaks of constant height |p1|, position p0; canonical parameters have p1 >= 0."""
    PF = h.cls("peaks.base", "PeakFunction")

    class Hat(PF):
        tag = idx

        def __init__(self):
            PF.__init__(self, {"position": 0, "height": 1}, ["internal"], {"default_input": "internal", "default_output": "internal"}, {})

        def _transform_parametersraw(self, pars, in_format, out_format):
            return h.arr([pars[0], abs(pars[1])])

        def _valueraw(self, pars, r):
            return abs(pars[1]) + r * 0.0

        def estimate_parameters(self, r, y):
            return est(r, y)
    return Hat()


def snapshot(parts):
    return [(p, p.owner(), list(p.pars), [bool(b) for b in p.free], p.removable, p.static_owner) for p in parts]


def restored(h, parts, snap, label):
    h.prove(len(parts) == len(snap), label)
    for p, (_, o, pars, free, rem, st) in zip(parts, snap):
        h.prove(p.owner() is o and [bool(b) for b in p.free] == free and p.removable == rem and p.static_owner == st, label)
        h.prove_eq(p.pars, h.arr(pars), label)


def optimiser(h, outcome, nfun, log, mc=None, idx=(), check=None):
    """A stand-in for scipy's leastsq: any outcome, after visiting any parameters."""
    last = []

    def leastsq(func, x0, args=(), Dfun=None, **kw):
        k = len(log)
        log.append(len(x0))
        x0 = list(x0)
        if check is not None:
            check(func, x0, args)
        if outcome == "nojac" and Dfun is not None:
            raise NotImplementedError("no Jacobian")
        trial = [h.real("t%d_%d" % (k, i), nonneg=True) for i in range(len(x0))]
        func(h.arr(trial), *args)
        if outcome == "raise":
            raise h.choice("exc", [ValueError, ZeroDivisionError, TypeError])("optimiser")
        ier = h.choice("ier", [1, 2, 3, 4]) if outcome in ("ok", "nojac") else h.choice("ier", [0, 5, 8])
        new = [h.real("n%d_%d" % (k, i)) for i in range(len(x0))]
        last[:] = new
        return h.arr(new), None, {"fvec": func(h.arr(new), *args)}, "message", ier
    h.stub(scipy.optimize.leastsq, leastsq)
    return last


def fit(h):
    n, npk, kind = h.p["n"], h.p["peaks"], h.p["kind"]
    sl = h.choice("slice", h.p["slices"])
    idx = inrange(sl, n)
    base = h.choice("base", h.p["base"])
    fitb = h.choice("fitbaseline", [False, True]) if base else h.p.get("fitb", False)
    r = [1.0 + i for i in range(n)]
    y = [h.real("y%d" % i, lo=-20, hi=20) for i in range(n)]
    e = h.choice("errors", [[0.5 + 0.25 * i for i in range(n)], [1.0] * n][:h.p["nerr"]])
    fr = h.choice("free", h.p["free"])
    fs, ps = [], []
    for i in range(npk):
        fs.append(hat(h, i))
        x = h.real("x%d" % i, lo=-3, hi=n + 3)
        ps.append(actualize(h, fs[-1], [x, h.real("h%d" % i, lo=-20 if npk == 1 else 0, hi=20)], fr[2 * i:2 * i + 2]))
        ps[-1].removable = h.choice("rem%d" % i, h.p.get("removable", [False]))
    for a, b in zip(ps[:-1], ps[1:]):
        h.assume(a.pars[0] <= b.pars[0])
    b, c0, bfree = None, 0.0, False
    if base:
        c0 = h.real("c", lo=-20, hi=20)
        bfree = base == "free"
        b = actualize(h, peakfn(h, "poly0"), [c0], [bfree])
    ya, ea, ra = h.arr(y), h.arr(e), h.arr(r)
    Peaks = h.cls("peaks.base", "Peaks")
    mc = h.cls("modelcluster", "ModelCluster")(Peaks(ps), b, ra, ya, ea, mkslice(sl), evaluator(h, kind), fs)
    if bool(mc.never_fit):
        return
    snap = snapshot(ps)
    q0 = mc.quality().stat
    log = []
    nfree = sum(fr) + (1 if bfree and fitb else 0)

    def check(func, x0, args):
        h.prove(len(x0) == nfree and nfree < len(idx), "never more free parameters than data points")
        hs = [abs(p.pars[1]) for p in ps]
        want = [(y[i] - sum(hs, 0.0) - c0) / e[i] for i in idx]
        got = list(func(h.arr(x0), *args))
        h.prove(len(got) == len(idx), "the fit is to the points of the cluster")
        h.prove_eq(sum([g * g for g in got], 0.0), sum([w * w for w in want], 0.0), "the function minimised is the chi-square of the cluster")
    outcome = h.choice("outcome", h.p["outcomes"])
    last = optimiser(h, outcome, 1, log, check=check)
    got = mc.fit(fitbaseline=fitb, justify=h.p.get("justify", False))
    h.prove(all(k < len(idx) for k in log), "never more free parameters than data points")
    judge(h, mc, got, snap, q0, b, c0, bfree and fitb, ya, y, ea, e, ra, r, fs, [r[i] for i in idx], [e[i] for i in idx], last)
    if not nfree < len(idx) and nfree:
        h.prove(got is None and not log, "more free parameters than data points are refused")
    if outcome in ("raise", "fail") and nfree:
        h.prove(got is None, "failed fits report nothing")


def judge(h, mc, got, snap, q0, b, c0, bmay, ya, y, ea, e, ra, r, fs, rc=None, ec=None, last=()):
    h.prove_eq(ya, h.arr(y), "data are never modified")
    h.prove_eq(ea, h.arr(e), "data are never modified")
    h.prove_eq(ra, h.arr(r), "data are never modified")
    h.prove(mc.y_data is ya and mc.r_data is ra and mc.y_error is ea, "data are never modified")
    if got is None:
        restored(h, mc.model, snap, "the original peaks are restored exactly")
        h.prove((mc.baseline is None) == (b is None), "the original baseline is restored exactly")
        if b is not None:
            h.prove(type(mc.baseline) is type(b) and mc.baseline.owner() is b.owner(), "the original baseline is restored exactly")
            h.prove_eq(mc.baseline.pars, h.arr([c0]), "the original baseline is restored exactly")
        return
    q = mc.quality().stat
    h.prove_eq(got.stat, q, "the quality reported is that of the model")
    h.prove(q <= q0, "the quality is no worse than before")
    h.prove(type(mc.model) is h.cls("peaks.base", "Peaks"), "the model is a group of peaks")
    for p1, p2 in zip(mc.model[:-1], mc.model[1:]):
        h.prove(p1.pars[0] <= p2.pars[0], "the fitted model is sorted by position")
    changed = bmay or any(x for s in snap for x in s[3])          # something was fitted
    owners = [p.owner().tag for p in mc.model]
    h.prove(len(set(owners)) == len(owners), "peaks are not repeated")
    for p in mc.model:
        h.prove(p.pars[1] >= 0 or not changed, "fitted parameters are canonical")
        _, o, pars, free, rem, st = snap[p.owner().tag]
        h.prove([bool(x) for x in p.free] == free and p.removable == rem, "flags survive a fit")
        for j in range(2):
            if not free[j]:
                h.prove_eq(p.pars[j], pars[j] if j == 0 or not changed else abs(pars[j]), "fixed parameters keep their values")
    for i, (_, o, pars, free, rem, st) in enumerate(snap):
        if not rem:
            h.prove(i in owners, "peaks that are not removable survive a fit")
    if rc is not None and len(owners) < len(snap):
        last = list(last)
        now = [[last.pop(0) if free[j] and last else pars[j] for j in range(2)] for _, o, pars, free, rem, st in snap]
        for i, (x, v) in enumerate(now):
            if i not in owners:
                h.prove(h.orb(x < rc[0], x > rc[-1]), "only peaks outside the cluster are removed")
                h.prove(h.andb(*[abs(v) < u for u in ec]), "only peaks below the uncertainty are removed")
    h.prove((mc.baseline is None) == (b is None), "the baseline stays")
    if b is not None and not bmay:
        h.prove_eq(mc.baseline.pars, h.arr([c0]), "the baseline changes only on request")
    if b is not None:
        h.prove(type(mc.baseline) is type(b) and mc.baseline.owner() is b.owner(), "the baseline stays")


def same(h):
    """A criterion to which all models are equally good."""
    ME = h.cls("modelevaluators.base", "ModelEvaluator")

    class Same(ME):
        def __init__(self):
            ME.__init__(self, "same", False)

        def evaluate(self, fit, count_fixed=False, kshift=0):
            self.stat = 1.0
            return self.stat

        def growth_justified(self, fit, k_prime):
            return False
    return Same


def gauss(h):
    """Real peaks: the fitted ones have canonical parameters."""
    n, kind = 3, h.p["kind"]
    f = peakfn(h, h.p["f"], 0.7)
    r = [1.0 + 0.5 * i for i in range(n)]
    y = [0.5, 1.5, 0.75]
    e = [0.25] * n
    p0 = [1.4, 0.25, 0.5]
    free = h.choice("free", h.p["free"])
    ps = [actualize(h, f, p0, free)]
    ps[0].removable = False
    ya, ea, ra = h.arr(y), h.arr(e), h.arr(r)
    mc = h.cls("modelcluster", "ModelCluster")(h.cls("peaks.base", "Peaks")(ps), None, ra, ya, ea, slice(0, n), same(h), [f])
    outcome = h.choice("outcome", ["ok", "fail"])
    new = []

    def leastsq(func, x0, args=(), Dfun=None, **kw):
        h.prove_eq(x0, h.arr([p for p, b in zip(p0, free) if b]), "the fit starts at the present values")
        v = dict(zip(range(3), p0))
        for j in range(3):
            if free[j]:
                v[j] = h.real("n%d" % j, lo=-5, hi=5)
        if free[1]:
            h.assume(h.sin(v[1]) > -1)
        new.append(v)
        a = h.arr([v[j] for j in range(3) if free[j]])
        return a, None, {"fvec": func(a, *args)}, "message", 1 if outcome == "ok" else 5
    h.stub(scipy.optimize.leastsq, leastsq)
    got = mc.fit()
    h.prove(len(mc.model) == 1 and len(new) == 1, "the peak stays")
    p = mc.model[0]
    if got is None:
        h.prove_eq(p.pars, h.arr(p0), "the original peaks are restored exactly")
        return
    h.prove(outcome == "ok", "failed fits report nothing")
    h.prove_eq(got.stat, mc.quality().stat, "the quality reported is that of the model")
    h.prove(h.andb(p.pars[1] >= -h.pi / 2, p.pars[1] <= h.pi / 2, p.pars[2] >= 0), "fitted parameters are canonical")
    h.prove_eq(p.pars[0], new[0][0], "the fitted parameters are those the optimiser found")
    h.prove_eq(h.sin(p.pars[1]), h.sin(new[0][1]), "the fitted parameters are those the optimiser found")
    h.prove_eq(p.pars[2], abs(new[0][2]), "the fitted parameters are those the optimiser found")


def empty(h):
    """A cluster without peaks: a peak is estimated first, if asked for."""
    n = 3
    base = h.choice("base", [None, "poly0"])
    r = [1.0 + i for i in range(n)]
    y = [h.real("y%d" % i, lo=-20, hi=20) for i in range(n)]
    e = [1.0] * n
    how = h.choice("estimation", ["ok", "none", "error"])
    seen = []

    def est(rr, yy):
        seen.append((rr, yy))
        if how == "ok":
            return h.arr([h.real("x0", lo=-3, hi=6), h.real("h0", lo=0, hi=20)])
        if how == "none":
            return None
        raise h.cls("srmiseerrors", "SrMiseEstimationError")("no")
    f = hat(h, 0, est)
    c0 = 0.0
    b = None
    if base:
        c0 = h.real("c", lo=-20, hi=20)
        b = actualize(h, peakfn(h, "poly0"), [c0], [True])
    ya, ea, ra = h.arr(y), h.arr(e), h.arr(r)
    mc = h.cls("modelcluster", "ModelCluster")(None, b, ra, ya, ea, slice(0, n), evaluator(h, "aic"), [f])
    if bool(mc.never_fit):
        return
    log = []
    outcome = h.choice("outcome", ["ok", "fail", "raise"])
    estimate = h.choice("estimate", [True, False])
    optimiser(h, outcome, 1, log)
    got = mc.fit(estimate=estimate)
    if not estimate or how != "ok":
        h.prove(got is None and len(mc.model) == 0 and not log, "nothing to fit")
        h.prove(bool(seen) == estimate, "estimation only on request")
        return
    h.prove(len(seen) == 1, "one estimate")
    h.prove_eq(seen[0][0], h.arr(r), "peaks are estimated from the data without baseline")
    h.prove_eq(seen[0][1], h.arr([v - c0 for v in y]), "peaks are estimated from the data without baseline")
    x0, h0 = (h.ctx.inputs["x0"], h.ctx.inputs["h0"]) if h.mode == "sym" else (h.values["x0"], h.values["h0"])
    peak = actualize(h, f, [x0, h0])
    q0 = want0(mc, y, h0 + c0)
    judge(h, mc, got, snapshot([peak]), q0, b, c0, False, ya, y, ea, e, ra, r, [f])


def want0(mc, y, v):
    return sum([(a - v) ** 2 for a in y], 0.0) + 4.0


def scenarios(tier):
    q = tier == "quick"
    T = lambda k: [list(x) for x in itertools.product([True, False], repeat=k)]  # noqa: E731
    out = [("empty", "empty", {}, {"weight": 4})]
    O = ["ok", "fail", "raise", "nojac"]
    for kind in ("aic", "aicc"):
        out.append(("one-" + kind, "fit", {"n": 3, "peaks": 1, "kind": kind, "slices": [(0, 3), (1, 3)], "base": [None], "free": T(2), "outcomes": O,
                                           "removable": [True, False]}, {"weight": 4, "max_validate": 150}))
        out.append(("base-" + kind, "fit", {"n": 4, "peaks": 1, "kind": kind, "slices": [(0, 4), (2, 4)], "base": ["fixed", "free"], "free": [[False, True], [True, True]],
                                            "outcomes": O}, {"weight": 4, "max_validate": 150}))
        for k, sl in enumerate([(0, 3), (0, 4)] if q else [(0, 3), (1, 4), (0, 5), None]):
            out.append(("two%d-%s" % (k, kind), "fit", {"n": 4 if q else 5, "peaks": 2, "kind": kind, "slices": [sl], "base": [None], "free": [[False, True, False, True], [True, True, False, False],
                        [False, False, True, False]] if q else T(4), "outcomes": O, "removable": [False]}, {"weight": 5, "max_validate": 150}))
        out.append(("clean-" + kind, "fit", {"n": 4, "peaks": 2, "kind": kind, "slices": [(1, 4)], "base": [None], "free": [[True, False, False, True], [False, False, True, False]],
                                             "outcomes": ["ok"], "removable": [True, False]}, {"weight": 5, "max_validate": 150}))
        out.append(("cross-" + kind, "fit", {"n": 4, "peaks": 2, "kind": kind, "slices": [(1, 4)], "base": [None], "free": [[True, False, True, False]],
                                             "outcomes": ["ok"], "removable": [True]}, {"weight": 5, "max_validate": 150}))
        out.append(("justify-" + kind, "fit", {"n": 3 if q else 4, "peaks": 1, "kind": kind, "slices": [(0, 3 if q else 4)], "base": [None] if q else [None, "free"],
                                               "free": [[False, True]] if q else [[True, True], [False, True]], "outcomes": ["ok", "fail"],
                                               "justify": True}, {"weight": 4, "max_validate": 150}))
        out.append(("none-" + kind, "fit", {"n": 3, "peaks": 1, "kind": kind, "slices": [(0, 3)], "base": [None, "fixed", "free"], "free": [[False, False]], "outcomes": ["ok", "fail"],
                                            "removable": [True, False]}, {}))
    for f in ("gaussian", "gaussianoverr"):
        out.append(("real-" + f, "gauss", {"f": f, "kind": "aic", "free": [[True, False, True], [False, True, False], [True, True, False]] if q else T(3)[:-1]},
                    {"weight": 3, "max_validate": 100}))
    for o in out:
        o[2]["nerr"] = 1 if q else 2
    return out
