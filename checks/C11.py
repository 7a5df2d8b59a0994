"""Model clusters: views of the data, the never-fit mark, contingent fits."""
import scipy.optimize

from checks.funcs import *  # noqa: F401,F403
from checks.C10 import flat, evaluator

FUNCTIONS = ["modelcluster.ModelCluster.__init__/copy/change_slice/value/valuebl/residual/plottable/contingent_fit/fit (refusal)/npars",
             "modelparts.ModelParts.value/residual", "basefunction.BaseFunction.value"]
BOUNDS = ("data of at most 4 (quick) / 6 points, every non-empty slice (also with open or negative ends), at most 2 peaks and a constant or linear baseline; histories of at most 3 (quick) / 4 growing "
          "slices with the baseline changing in between; contingent fits interleaved with growth, for every minimum and threshold; the optimiser is a stub")


def bl(h, kind, tag="b"):
    if kind is None:
        return None, (lambda x: 0.0)
    f = peakfn(h, kind)
    c = [h.real("%s%d" % (tag, i)) for i in range(f.npars)]
    if kind == "poly0":
        return actualize(h, f, c), (lambda x: c[0])
    return actualize(h, f, c), (lambda x: c[0] * x + c[1])


def make(h, n, npk, sl, base, pos=None):
    f = flat(h)
    ps = [actualize(h, f, [h.real("x%d" % i) if pos is None else float(pos[i]), h.real("h%d" % i)]) for i in range(npk)]
    for p in ps:
        p.removable = False
    r, y, e = h.increasing("r", n), h.reals("y", n), h.reals("e", n, pos=True)
    b, bv = bl(h, base)
    ya, ea = h.arr(y), h.arr(e)
    EM = evaluator(h, "aic")
    mc = h.cls("modelcluster", "ModelCluster")(h.cls("peaks.base", "Peaks")(ps), b, r, ya, ea, mkslice(sl), EM, [f])
    return mc, ps, r, y, e, ya, ea, b, bv, f, EM


def viewed(h, mc, idx, r, y, e, top, bv, label=""):
    h.prove(mc.size == len(idx), "the size is that of the slice" + label)
    h.prove_eq(mc.r_cluster, h.arr([r[i] for i in idx]), "coordinates are those of the slice" + label)
    h.prove_eq(mc.y_cluster, h.arr([y[i] for i in idx]), "values are those of the slice" + label)
    h.prove_eq(mc.error_cluster, h.arr([e[i] for i in idx]), "uncertainties are those of the slice" + label)
    h.prove_eq(mc.valuebl(), h.arr([bv(r[i]) for i in idx]), "the baseline on the slice" + label)
    h.prove_eq(mc.value(), h.arr([bv(r[i]) + top for i in idx]), "the value on the slice is baseline plus peaks" + label)
    h.prove_eq(mc.residual(), h.arr([y[i] - bv(r[i]) - top for i in idx]), "the residual is data minus value" + label)


def view(h):
    n, npk = h.p["n"], h.p["peaks"]
    sl = h.choice("slice", h.p["slices"])
    base = h.choice("base", [None, "poly0", "poly1"])
    mc, ps, r, y, e, ya, ea, b, bv, f, EM = make(h, n, npk, sl, base)
    idx = inrange(sl, n)
    hs = [p.pars[1] for p in ps]
    top = sum(hs, 0.0)
    viewed(h, mc, idx, r, y, e, top, bv)
    z = [h.real("z%d" % i) for i in range(2)]
    h.prove_eq(mc.value(h.arr(z)), h.arr([bv(x) + top for x in z]), "the value at other points is baseline plus peaks")
    h.prove_eq(mc.value(z[0]), bv(z[0]) + top, "the value at one point is baseline plus peaks")
    h.prove_eq(mc.valuebl(h.arr(z)), h.arr([bv(x) for x in z]), "the baseline at other points")
    h.prove_eq(mc.valuebl(z[0]), bv(z[0]), "the baseline at one point")
    nb = 0 if b is None else len(b)
    h.prove(mc.npars() == 2 * npk + nb and mc.npars(count_baseline=False) == 2 * npk, "parameter counts")
    # plots
    pl = mc.plottable(joined=True)
    for got, want in zip(pl, (mc.r_cluster, mc.y_cluster, mc.r_cluster, mc.value())):
        h.prove_eq(got, want, "what is plotted is data and value")
    pl = mc.plottable()
    h.prove(len(pl) == 2 + 2 * npk, "one plotted curve per peak")
    for i in range(npk):
        h.prove_eq(pl[2 * i + 2], mc.r_cluster, "what is plotted is each peak on the baseline")
        h.prove_eq(pl[2 * i + 3], h.arr([bv(r[j]) + hs[i] for j in idx]), "what is plotted is each peak on the baseline")
    # a new slice
    s2 = h.choice("slice2", h.p["slices"][-6:])
    mc.change_slice(mkslice(s2) or slice(None))
    viewed(h, mc, inrange(s2, n), r, y, e, top, bv, " after a change")
    h.prove(mc.r_data is r and mc.y_data is ya and mc.y_error is ea, "data are shared, not copied")
    h.prove_eq(ya, h.arr(y), "data unchanged")
    h.prove_eq(ea, h.arr(e), "data unchanged")
    h.prove(len(mc.model) == npk and all(a is b2 for a, b2 in zip(mc.model, ps)), "peaks unchanged")


def copying(h):
    n, npk = h.p["n"], h.p["peaks"]
    sl = h.choice("slice", h.p["slices"])
    base = h.choice("base", [None, "poly0", "poly1"])
    mc, ps, r, y, e, ya, ea, b, bv, f, EM = make(h, n, npk, sl, base, pos=[1, 2])
    idx = inrange(sl, n)
    hs = [p.pars[1] for p in ps]
    top = sum(hs, 0.0)
    nf = bool(mc.never_fit)
    how = h.choice("how", ["copy", "constructor"])
    c = mc.copy() if how == "copy" else h.cls("modelcluster", "ModelCluster")(mc)
    viewed(h, c, idx, r, y, e, top, bv, " (copy)")
    h.prove(c.error_method is EM and list(c.peak_funcs) == [f], "copies keep evaluator and peak functions")
    h.prove(bool(c.never_fit) == nf, "copies keep the never-fit mark")
    h.prove(inrange((c.slice.start, c.slice.stop), n) == idx, "copies keep the slice")
    act = h.choice("act", ["pars", "list", "baseline", "slice", "funcs", "original"])
    ch = c
    if act == "pars" and npk:
        c.model[0].pars[1] = c.model[0].pars[1] + 1
        c.model[0].setfree(0, False)
    elif act == "list":
        c.replacepeaks(h.cls("peaks.base", "Peaks")([actualize(h, f, [5.0, h.real("new")])]))
    elif act == "baseline" and b is not None:
        c.baseline.pars[0] = c.baseline.pars[0] + 1
    elif act == "slice":
        c.change_slice(slice(0, n))
    elif act == "funcs":
        c.peak_funcs.append(f)
    elif act == "original":
        if npk:
            mc.model[0].pars[1] = mc.model[0].pars[1] + 1
        if b is not None:
            mc.baseline.pars[0] = mc.baseline.pars[0] + 1
        mc.replacepeaks(h.cls("peaks.base", "Peaks")([actualize(h, f, [5.0, h.real("new")])]))
        viewed(h, c, idx, r, y, e, top, bv, " (copy, original changed)")
        return
    viewed(h, mc, idx, r, y, e, top, bv, " (original, copy changed)")
    h.prove(len(mc.model) == npk and len(mc.peak_funcs) == 1 and all(bool(x) for p in mc.model for x in p.free), "changing a copy leaves the original")


def grow(h):
    """never_fit over histories of growing slices, judged with the baseline of the time."""
    n = h.p["n"]
    steps = h.choice("steps", h.p["steps"])
    base = h.p["base"]
    mc, ps, r, y, e, ya, ea, b, bv, f, EM = make(h, n, 0, steps[0], base)
    done = set()
    low = True
    for k, s in enumerate(steps):
        if k:
            if b is not None and h.p["change"]:
                nb, bv = bl(h, base, "b%d_" % k)
                mc.baseline = nb
            mc.change_slice(slice(*s))
        new = [i for i in inrange(s, n) if i not in done]
        done |= set(new)
        if low:
            low = bool(h.andb(*[y[i] - bv(r[i]) < e[i] for i in new]))
        h.prove(bool(mc.never_fit) == low, "the never-fit mark is set exactly when all covered points are below noise")
        h.prove(mc.size == len(done), "the size is that of the slice")


def histories(n, k):
    """Growing non-empty slices."""
    out = []

    def rec(seq):
        if len(seq) == k:
            out.append(tuple(seq))
            return
        a, b = seq[-1]
        for a2 in range(a, -1, -1):
            for b2 in range(b, n + 1):
                rec(seq + [(a2, b2)])
    for a in range(n):
        for b in range(a + 1, n + 1):
            rec([(a, b)])
    return out


def skipped(h):
    """A cluster below noise is never fitted."""
    n = 3
    npk = h.p["peaks"]
    mc, ps, r, y, e, ya, ea, b, bv, f, EM = make(h, n, npk, h.choice("slice", [None, (0, 2), (1, 3)]), h.choice("base", [None, "poly0"]), pos=[1, 2])
    h.assume(h.andb(*[v < 0 for v in [mc.y_cluster[i] - mc.valuebl()[i] - mc.error_cluster[i] for i in range(mc.size)]]))
    hs = [p.pars[1] for p in ps]
    calls = []

    def leastsq(func, x0, args=(), **kw):
        calls.append("fit")
        return x0, None, {"fvec": func(x0, *args)}, "", 1
    h.stub(scipy.optimize.leastsq, leastsq)
    f.estimate_parameters = lambda r, y: calls.append("estimate")
    h.prove(bool(mc.never_fit), "the never-fit mark is set exactly when all covered points are below noise")
    out = []
    for kw in ({}, {"justify": True}, {"fitbaseline": True}, {"estimate": False}, {"ntrials": 10}):
        out.append(mc.fit(**kw))
    out.append(mc.contingent_fit(0, 0.0))
    h.prove(out == [None] * 6 and not calls, "clusters below noise are never fitted")
    h.prove(len(mc.model) == npk, "clusters below noise keep their peaks")
    for p, v in zip(mc.model, hs):
        h.prove_eq(p.pars[1], v, "clusters below noise keep their peaks")


def contingent(h):
    """Fits happen only with data enough, or growth enough since the last fit."""
    n = h.p["n"]
    steps = h.choice("steps", h.p["steps"])
    calls = []

    def leastsq(func, x0, args=(), **kw):
        calls.append(1)
        return x0, None, {"fvec": func(x0, *args)}, "", 1
    h.stub(scipy.optimize.leastsq, leastsq)
    f = flat(h)
    pk = actualize(h, f, [1.0, 2.0], [False, True])
    pk.removable = False
    y = h.choice("data", [[2.0] * n, [3.0, 1.5] * n])[:n]       # good enough, and asking for more peaks
    mc = h.cls("modelcluster", "ModelCluster")(h.cls("peaks.base", "Peaks")([pk]), None, h.arr([1.0 + i for i in range(n)]), h.arr(y),
                                               h.arr([0.05] * n), slice(*steps[0]), evaluator(h, "aic"), [f])
    mins, thr = h.int("minpoints", 0, n + 1), h.real("threshold", pos=True)
    last = 0
    for k, s in enumerate(steps):
        if k:
            mc.change_slice(slice(*s))
        m = s[1] - s[0]
        want = bool(m / last >= thr) if last else bool(m >= mins)
        before = len(calls)
        got = mc.contingent_fit(mins, thr)
        if m > 1:                                          # fewer points than that cannot be fitted
            h.prove((len(calls) > before) == want, "a contingent fit happens exactly when points or growth suffice")
        if not want:
            h.prove(got is None and len(calls) == before, "no fit without points or growth enough")
        else:
            last = m


def scenarios(tier):
    q = tier == "quick"
    n = 4 if q else 6
    out = []
    sl = [s for s in slices(n) if inrange(s, n)]
    for k in range(3):
        out.append(("view%d" % k, "view", {"n": n, "peaks": k, "slices": sl}, {"weight": 3, "max_validate": 100}))
        out.append(("copying%d" % k, "copying", {"n": 3, "peaks": k, "slices": [s for s in slices(3) if inrange(s, 3)]}, {"weight": 3, "max_validate": 100}))
        out.append(("skipped%d" % k, "skipped", {"peaks": k}, {}))
    for base in (None, "poly0", "poly1"):
        H = histories(4, 3) if q else histories(5, 3) + histories(4, 4)
        cut = 4
        for part in range(cut):
            out.append(("grow-%s-%d" % (base, part), "grow", {"n": 4 if q else 5, "steps": H[part::cut], "base": base, "change": True},
                        {"weight": 4, "max_validate": 60}))
    H = [s for s in histories(4, 3) if s[0][1] - s[0][0] < 4]
    H = H[::2] if q else H + histories(4, 4)
    H += [((0, 4), (0, 2), (0, 3)), ((0, 3), (1, 3), (0, 4)), ((1, 4), (1, 3), (0, 3)), ((0, 4), (2, 4), (2, 4)), ((0, 4), (0, 3), (0, 2))]      # with less data in between
    for part in range(4):
        out.append(("contingent%d" % part, "contingent", {"n": 4, "steps": H[part::4]}, {"weight": 5, "max_validate": 80}))
    return out
