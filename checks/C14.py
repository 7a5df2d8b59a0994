"""Pruning, augmenting and reducing clusters, whatever the inner fits do."""
import scipy.optimize

from checks.funcs import *  # noqa: F401,F403
from checks.C10 import evaluator
from checks.C13 import block, tags

FUNCTIONS = ["modelcluster.ModelCluster.prune/augment/reduce_to/fit/cleanfit/quality/replacepeaks", "modelparts.ModelParts.fit", "peaks.base.Peaks.match_at/sort/copy",
             "modelevaluators.aic.AIC"]
BOUNDS = ("models of at most 3 (quick) / 4 peaks of constant height (5 and 6 with few removable ones, to reach beyond the window of neighbours), at most 2 candidate peaks, a constant baseline, data of one symbolic level; every set of removable "
          "flags, free and fixed heights; the optimiser is a stub returning arbitrary heights or failing; quality by AIC or by a linear criterion")


def linear(h):
    """A criterion of the user: absolute deviation plus twice the number of parameters."""
    ME = h.cls("modelevaluators.base", "ModelEvaluator")

    class Linear(ME):
        def __init__(self):
            ME.__init__(self, "linear", False)

        def evaluate(self, fit, count_fixed=False, kshift=0):
            k = fit.model.npars(count_fixed=count_fixed) + kshift
            res = fit.value() - fit.y_cluster
            self.chisq = abs(res[0]) * 5.0
            self.stat = self.chisq + 2 * k
            return self.stat

        def minpoints(self, npars):
            return 1

        def growth_justified(self, fit, k_prime):
            res = fit.value() - fit.y_cluster
            return abs(res[0]) * 5.0 > 2 * k_prime
    return Linear


def method(h):
    return linear(h) if h.p["kind"] == "linear" else evaluator(h, h.p["kind"])


def optimiser(h, outcomes):
    n = [0]

    def leastsq(func, x0, args=(), **kw):
        k = n[0]
        n[0] += 1
        new = [h.real("n%d_%d" % (k, i), lo=-50, hi=50) for i in range(len(x0))]
        fv = func(h.arr(new), *args)
        o = h.choice("o%d" % k, outcomes)
        if o == "raise":
            raise ValueError("optimiser")
        return h.arr(new), None, {"fvec": fv}, "", 1 if o == "ok" else 5
    h.stub(scipy.optimize.leastsq, leastsq)
    return n


def setup(h, k, tag="", k0=0, rem=None, free=None, t=None):
    n = h.p["n"]
    fs = [block(h, k0 + i) for i in range(k)]
    ps = []
    for i in range(k):
        ps.append(actualize(h, fs[i], [1.0 + (k0 + i) * 0.3, h.real("%sh%d" % (tag, k0 + i), lo=0.25, hi=50)], [False, True if free is None else free[i]]))
        ps[-1].removable = h.choice("%srem%d" % (tag, i), [True, False]) if rem is None else rem[i]
    return fs, ps


def mkcluster(h, fs, ps, t):
    n = h.p["n"]
    base = h.p.get("base")
    c0 = h.real("c", lo=-10, hi=10) if base else 0.0
    b = actualize(h, peakfn(h, "poly0"), [c0]) if base else None
    lo = h.p.get("lo", 0)
    r, y, e = h.arr([0.5 + i for i in range(n + lo)]), h.arr([0.0] * lo + [t] * n), h.arr([1.0] * (n + lo))
    mc = h.cls("modelcluster", "ModelCluster")(h.cls("peaks.base", "Peaks")(ps), b, r, y, e, slice(lo, n + lo), method(h), fs)
    return mc, b, c0, r, y, e


def unchanged(h, mc, b, c0, r, y, e, t):
    n, lo = h.p["n"], h.p.get("lo", 0)
    h.prove(mc.r_data is r and mc.y_data is y and mc.y_error is e and mc.size == n, "data and extent unchanged")
    h.prove_eq(y, h.arr([0.0] * lo + [t] * n), "data and extent unchanged")
    h.prove_eq(mc.y_cluster, h.arr([t] * n), "data and extent unchanged")
    h.prove((mc.baseline is None) == (b is None), "baseline unchanged")
    if b is not None:
        h.prove_eq(mc.baseline.pars, h.arr([c0]), "baseline unchanged")


def kept(h, mc, ps, orig, rem, fr):
    ts = tags(mc.model)
    h.prove(len(set(ts)) == len(ts), "no peak is repeated")
    for k, p in enumerate(ps):
        if not rem[k]:
            h.prove(p.owner().tag in ts, "peaks that are not removable are kept")
    for p in mc.model:
        k = [i for i, q in enumerate(ps) if q.owner().tag == p.owner().tag]
        h.prove(len(k) == 1, "no foreign peaks")
        h.prove([bool(x) for x in p.free] == fr[k[0]] and p.removable == rem[k[0]], "flags are kept")
        h.prove_eq(p.pars[0], orig[k[0]][0], "fixed parameters keep their values")
        if not fr[k[0]][1]:
            h.prove_eq(p.pars[1], orig[k[0]][1], "fixed parameters keep their values")
    for p, q in zip(mc.model[:-1], mc.model[1:]):
        h.prove(p.pars[0] <= q.pars[0], "the model is sorted")
    h.prove(type(mc.model) is h.cls("peaks.base", "Peaks"), "the model is a group of peaks")


def record(ps):
    return [list(p.pars) for p in ps], [p.removable for p in ps], [[bool(x) for x in p.free] for p in ps]


def prune(h):
    t = h.real("t", lo=1.25, hi=50)
    free = h.choice("free", h.p["free"]) if "free" in h.p else None
    fs, ps = setup(h, h.p["peaks"], rem=h.p.get("rem"), free=free)
    mc, b, c0, r, y, e = mkcluster(h, fs, ps, t)
    orig, rem, fr = record(ps)
    q0 = mc.quality().stat
    calls = optimiser(h, h.p["outcomes"])
    mc.prune()
    q1 = mc.quality().stat
    h.prove(q1 <= q0, "pruning never lowers the quality")
    kept(h, mc, ps, orig, rem, fr)
    unchanged(h, mc, b, c0, r, y, e, t)
    if not any(rem):
        for p, o in zip(mc.model, orig):
            h.prove_eq(p.pars, h.arr(o), "without removable peaks nothing changes")


def augment(h):
    t = h.real("t", lo=1.25, hi=50)
    fs, ps = setup(h, h.p["own"], free=h.p.get("freeown"))
    gs, qs = setup(h, h.p["new"], "s", h.p["own"], free=h.p.get("freenew"))
    mc, b, c0, r, y, e = mkcluster(h, fs, ps, t)
    src = h.cls("modelcluster", "ModelCluster")(h.cls("peaks.base", "Peaks")(qs), None, r, y, e, slice(None), method(h), gs)
    orig, rem, fr = record(ps + qs)
    q0 = mc.quality().stat
    optimiser(h, h.p["outcomes"])
    mc.augment(src)
    q1 = mc.quality().stat
    h.prove(q1 <= q0, "augmenting never lowers the quality")
    kept2(h, mc, ps, qs, orig, rem, fr)
    unchanged(h, mc, b, c0, r, y, e, t)
    h.prove(tags(src.model) == [q.owner().tag for q in qs], "the candidates are left as they are")
    for q, o, f, m in zip(src.model, orig[len(ps):], fr[len(ps):], rem[len(ps):]):
        h.prove_eq(q.pars, h.arr(o), "the candidates are left as they are")
        h.prove([bool(x) for x in q.free] == f and q.removable == m, "the candidates are left as they are")
        h.prove(not any(q is p for p in mc.model), "the candidates are left as they are")


def kept2(h, mc, ps, qs, orig, rem, fr):
    ts = tags(mc.model)
    h.prove(all(p.owner().tag in ts for p in ps), "augmenting removes no peak")
    kept(h, mc, [p for p in ps + qs if p.owner().tag in ts], [o for o, p in zip(orig, ps + qs) if p.owner().tag in ts],
         [o for o, p in zip(rem, ps + qs) if p.owner().tag in ts], [o for o, p in zip(fr, ps + qs) if p.owner().tag in ts])


def reduce(h):
    t = h.real("t", lo=1.25, hi=50)
    fs, ps = setup(h, h.p["peaks"], free=h.p.get("free"))
    mc, b, c0, r, y, e = mkcluster(h, fs, ps, t)
    orig, rem, fr = record(ps)
    optimiser(h, h.p["outcomes"])
    x = 1.0
    lim = h.real("limit", lo=-60, hi=60)
    top = sum([o[1] for o in orig], 0.0) + c0
    got = mc.reduce_to(x, lim)
    unchanged(h, mc, b, c0, r, y, e, t)
    if got is None:
        h.prove(tags(mc.model) == [p.owner().tag for p in ps], "a reduction that fails restores the peaks")
        for p, o, f, m in zip(mc.model, orig, fr, rem):
            h.prove_eq(p.pars, h.arr(o), "a reduction that fails restores the peaks")
            h.prove([bool(v) for v in p.free] == f and p.removable == m, "a reduction that fails restores the peaks")
        return
    h.prove(top >= lim, "peaks below the limit are not reduced")
    h.prove_eq(got.stat, mc.quality().stat, "the quality of the reduced model is reported")
    h.prove(not mc.quality().growth_justified(mc, 2), "a reduction is accepted only if no more peaks are called for")
    kept(h, mc, ps, orig, rem, fr)


def reducefit(h):
    """The fit after a reduction starts from peaks matched to the limit less the baseline."""
    t = h.real("t", lo=1.25, hi=50)
    fs, ps = setup(h, h.p["peaks"])
    mc, b, c0, r, y, e = mkcluster(h, fs, ps, t)
    orig, rem, fr = record(ps)
    starts = []

    def leastsq(func, x0, args=(), **kw):
        starts.append(list(x0))
        return x0, None, {"fvec": func(x0, *args)}, "", 1
    h.stub(scipy.optimize.leastsq, leastsq)
    lim = h.real("limit", lo=-60, hi=60)
    top = sum([o[1] for o in orig], 0.0)
    mc.reduce_to(1.0, lim)
    if bool(top + c0 < lim):
        h.prove(not starts, "peaks below the limit are not reduced")
        return
    if bool(lim - c0 > 0) and not bool(mc.never_fit):
        h.prove(len(starts) == 1, "the reduced peaks are fitted")
        for v, o in zip(starts[0], orig):
            h.prove_eq(v * top, o[1] * (lim - c0), "peaks are reduced alike to the limit less the baseline")


def scenarios(tier):
    q = tier == "quick"
    out = []
    for kind in ("linear", "aic"):
        K = {"kind": kind, "n": 5}
        for k in (1, 2):
            out.append(("prune%d-%s" % (k, kind), "prune", dict(K, peaks=k, outcomes=["ok", "fail"], free=[[True] * k] + ([[True] * (k - 1) + [False]] if kind == "linear" or not q else [])), {"weight": 3 * k, "max_validate": 100}))
        rems = [[True, False, True], [True, True, False], [False, True, True]] if kind == "linear" else [[False, True, False]]
        rems += [] if q else [[True, True, True]]
        for i, rem in enumerate(rems):
            out.append(("prune3-%s-%d" % (kind, i), "prune", dict(K, peaks=3, outcomes=["ok"], rem=rem), {"weight": 9, "max_validate": 60}))
        if kind == "linear" or not q:
            out.append(("pruneb-" + kind, "prune", dict(K, peaks=2, outcomes=["ok"], base=True, lo=1, rem=[True, True], free=[[True, True], [False, True]]), {"weight": 5, "max_validate": 60}))
        for own, new in [(0, 1), (1, 1), (2, 1)] + ([(1, 2)] if kind == "linear" or not q else []) + ([] if q else [(2, 2)]):
            out.append(("augment%d%d-%s" % (own, new, kind), "augment", dict(K, own=own, new=new, outcomes=["ok", "fail"] if own + new < 3 else ["ok"]), {"weight": 3 * (own + new), "max_validate": 60}))
        out.append(("augmentb-" + kind, "augment", dict(K, own=1, new=1, outcomes=["ok"], base=True, freeown=[False]), {"weight": 4, "max_validate": 60}))
        for k in (1, 2):
            for base in (False, True):
                out.append(("reduce%d%s-%s" % (k, "b" if base else "", kind), "reduce", dict(K, peaks=k, outcomes=["ok", "fail", "raise"], base=base), {"weight": 4, "max_validate": 60}))
                if k == 2:
                    out.append(("reduceout%s-%s" % ("b" if base else "", kind), "reduce", dict(K, peaks=k, outcomes=["ok", "fail"], base=base, lo=1), {"weight": 4, "max_validate": 60}))
                out.append(("reducefit%d%s-%s" % (k, "b" if base else "", kind), "reducefit", dict(K, peaks=k, base=base), {"weight": 2, "max_validate": 60}))
    for k, rem in ((5, [0]), (5, [4]), (6, [2]), (5, [1, 4])) if q else ((5, [0]), (5, [4]), (6, [2]), (6, [5]), (6, [0, 5]), (7, [3])):
        out.append(("window%d-%s" % (k, "-".join(map(str, rem))), "prune", {"kind": "linear", "n": 9, "peaks": k, "outcomes": ["ok"], "rem": [i in rem for i in range(k)]}, {"weight": 6, "max_validate": 60}))
    return out
