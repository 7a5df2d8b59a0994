"""Model quality: AIC and AICc."""
import itertools

from checks.funcs import *  # noqa: F401,F403

FUNCTIONS = ["modelevaluators.base.ModelEvaluator.*", "modelevaluators.aic.AIC.*", "modelevaluators.aicc.AICc.*", "modelcluster.ModelCluster.quality/size/value"]
BOUNDS = ("quality of model clusters of at most 4 (quick) / 5 points and 2 peaks with every set of free parameters, every slice, with and without baseline, all real data and "
          "positive errors; penalties for any shift -12..40 and any number of data points 1..200; at most 4 (quick) / 5 candidates for comparisons, weights and probabilities")


def flat(h, n=2):
    PF = h.cls("peaks.base", "PeakFunction")

    class Flat(PF):
        """Peaks of constant value: position, height, ..."""
        def __init__(self):
            PF.__init__(self, dict([("position", 0), ("height", 1)] + [("x%d" % i, i) for i in range(2, n)]), ["internal"],
                        {"default_input": "internal", "default_output": "internal"}, {})

        def _transform_parametersraw(self, pars, in_format, out_format):
            return h.arr(list(pars))

        def _valueraw(self, pars, r):
            return pars[1] + r * 0.0
    return Flat()


def evaluator(h, kind):
    return h.cls("modelevaluators." + kind, {"aic": "AIC", "aicc": "AICc"}[kind])


def want(kind, chi, k, n):
    p = chi + 2 * k
    if kind == "aicc":
        n = n if n >= k + 2 else k + 2
        p = p + 2.0 * k * (k + 1) / (n - k - 1)
    return p


def cluster(h, n, npk, frees, sl, base, EM):
    f = flat(h)
    peaks = [actualize(h, f, [h.real("x%d" % i), h.real("h%d" % i)], list(frees[2 * i:2 * i + 2])) for i in range(npk)]
    for p in peaks:
        p.removable = False
    r, y = h.increasing("r", n), h.reals("y", n)
    e = h.reals("e", n, pos=True)
    b, c0 = None, 0.0
    if base:
        c0 = h.real("c0")
        b = actualize(h, peakfn(h, "poly0"), [c0])
    mc = h.cls("modelcluster", "ModelCluster")(h.cls("peaks.base", "Peaks")(peaks), b, r, h.arr(y), h.arr(e), mkslice(sl), EM, [f])
    idx = inrange(sl, n)
    tot = sum([p.pars[1] for p in peaks], 0.0) + c0
    chi = sum([((tot - y[i]) / e[i]) ** 2 for i in idx], 0.0)
    return mc, len(idx), chi


def quality(h):
    kind, n, npk = h.p["kind"], h.p["n"], h.p["peaks"]
    EM = evaluator(h, kind)
    frees = h.choice("frees", h.p["frees"])
    mc, m, chi = cluster(h, n, npk, frees, h.choice("slice", h.p["slices"]), h.choice("base", [False, True]), EM)
    h.prove(mc.size == m, "the number of data points is that of the slice")
    fixed = h.choice("fixed", [None, True])
    shift = h.choice("shift", [0, 2, -1])
    k = (len(frees) if fixed else sum(frees)) + shift
    em = EM()
    if k < 0:
        E = h.cls("srmiseerrors", "SrMiseModelEvaluatorError")
        h.prove(h.raises(lambda: em.evaluate(mc, kshift=shift), E) is not None, "negative parameter counts are refused")
        return
    got = em.evaluate(mc, count_fixed=True, kshift=shift) if fixed else em.evaluate(mc, kshift=shift)
    h.prove_eq(em.chisq, chi, "chi-square is the weighted sum of squared residuals")
    h.prove_eq(em.stat, want(kind, chi, k, m), "the statistic is chi-square plus penalty")
    h.prove_eq(got, em.stat, "the statistic is returned")
    if not fixed:
        q = mc.quality() if shift == 0 else mc.quality(kshift=shift)
        h.prove(type(q) is EM, "a cluster's quality uses its own criterion")
        h.prove_eq(q.stat, want(kind, chi, k, m), "the quality of a cluster")
        q2 = mc.quality(h.cls("modelevaluators." + h.p["other"], {"aic": "AIC", "aicc": "AICc"}[h.p["other"]]))
        h.prove_eq(q2.stat, want(h.p["other"], chi, sum(frees), m), "the quality of a cluster by another criterion")
    if fixed is None and shift == 0:
        for kp, e2 in ((0, em), (3, EM())):
            j = bool(e2.growth_justified(mc, kp))
            kt = k + kp
            need = 1 if kind == "aic" else kt + 2
            rise = want(kind, 0.0, kt, m) - want(kind, 0.0, k, m) if m >= need else None
            h.prove(j == (m >= need and bool(rise < chi)), "growth is justified exactly when data and chi-square allow it")


class Fit:
    def __init__(self, n, k, v, y, e):
        self.size, self.k, self.v, self.y_cluster, self.error_cluster = n, k, v, y, e
        self.model = self

    def npars(self, count_fixed=True):
        return self.k + 5 if count_fixed else self.k

    def value(self):
        return self.v


def penalty(h):
    """Any number of parameters and data points."""
    kind = h.p["kind"]
    EM = evaluator(h, kind)
    n, k, s, kp = h.int("n", 1, 200), h.int("k", 0, 20), h.int("shift", -12, 20), h.int("more", 0, 20)
    v, y, e = h.real("v"), h.real("y"), h.real("e", pos=True)
    fit = Fit(n, k, h.arr([v]), h.arr([y]), h.arr([e]))
    chi = ((v - y) / e) ** 2
    em = EM()
    if bool(k + s < 0):
        E = h.cls("srmiseerrors", "SrMiseModelEvaluatorError")
        h.prove(h.raises(lambda: em.evaluate(fit, kshift=s), E) is not None, "negative parameter counts are refused")
    else:
        em.evaluate(fit, kshift=s)
        h.prove_eq(em.stat, want(kind, chi, k + s, n), "the statistic is chi-square plus penalty")
    em = EM()
    j = bool(em.growth_justified(fit, kp))
    need = 1 if kind == "aic" else k + kp + 2
    if bool(n >= need):
        h.prove(j == bool(want(kind, 0.0, k + kp, n) - want(kind, 0.0, k, n) < chi), "growth is justified exactly when data and chi-square allow it")
    else:
        h.prove(not j, "growth is not justified without data enough")


def ordering(h):
    kinds = h.p["kinds"]
    a, b = evaluator(h, kinds[0])(), evaluator(h, kinds[1])()
    ops = [lambda: a < b, lambda: a <= b, lambda: a > b, lambda: a >= b, lambda: a == b, lambda: a != b]
    for op in ops:
        h.prove(h.raises(op, AssertionError) is not None, "models that have not been evaluated are not comparable")
    a.stat, b.stat = h.real("a"), h.real("b")
    if kinds[0] != kinds[1]:
        for op in ops:
            h.prove(h.raises(op, AssertionError) is not None, "criteria of different kinds are not comparable")
        return
    h.prove(bool(a > b) == bool(a.stat < b.stat), "the lower statistic is the better")
    h.prove(bool(a < b) == bool(b.stat < a.stat), "the lower statistic is the better")
    h.prove(bool(a >= b) == bool(a.stat <= b.stat), "the lower statistic is the better")
    h.prove(bool(a <= b) == bool(b.stat <= a.stat), "the lower statistic is the better")
    h.prove(bool(a == b) == bool(a.stat == b.stat), "equal statistics are equally good")
    h.prove(bool(a != b) == bool(a.stat != b.stat), "equal statistics are equally good")


def best(h):
    """The best of a list is one of lowest statistic."""
    EM = evaluator(h, h.p["kind"])
    n = h.p["n"]
    ems = []
    for i in range(n):
        ems.append(EM())
        ems[-1].stat = h.real("s%d" % i)
    m = max(ems)
    for e in ems:
        h.prove(m.stat <= e.stat, "the best candidate has the lowest statistic")


def weights(h):
    EM = evaluator(h, h.p["kind"])
    n = h.p["n"]
    ss = [h.real("s%d" % i, lo=0, hi=400) for i in range(n)]
    ems = []
    for s in ss:
        ems.append(EM())
        ems[-1].stat = s
    w = list(EM.akaikeweights(ems))
    h.prove(len(w) == n, "one weight per candidate")
    mn = ss[0]
    for s in ss[1:]:
        if bool(s < mn):
            mn = s
    ref = [h.exp(-(s - mn) / 2) for s in ss]
    for a, b in zip(w, ref):
        h.prove_eq(a, b, "weights are exp(-(stat - min)/2)")
    p = list(EM.akaikeprobs(ems))
    tot = sum(ref[1:], ref[0])
    for a, b in zip(p, ref):
        h.prove_eq(a, b / tot, "probabilities are the normalised weights")
    h.prove_eq(sum(p[1:], p[0]), 1.0, "probabilities sum to one")
    h.prove_eq(ems[0].stat, ss[0], "statistics unchanged")


def scenarios(tier):
    q = tier == "quick"
    out = []
    T = lambda n: [list(x) for x in itertools.product([True, False], repeat=n)]  # noqa: E731
    for kind, other in (("aic", "aicc"), ("aicc", "aic")):
        for npk in (0, 1, 2):
            n = 3 if q else 5
            fr = T(2 * npk) if npk < 2 else T(4)[::5] if q else T(4)
            sl = [None, (0, 2), (1, n), (n - 1, n)] if q else slices(n)[:12]
            out.append(("quality%d-%s" % (npk, kind), "quality", {"kind": kind, "other": other, "n": n, "peaks": npk, "frees": fr, "slices": sl},
                        {"weight": 3, "max_validate": 150}))
        out.append(("penalty-" + kind, "penalty", {"kind": kind}, {"weight": 2}))
        for n in range(1, 5 if q else 6):
            out.append(("weights%d-%s" % (n, kind), "weights", {"kind": kind, "n": n}, {}))
            out.append(("best%d-%s" % (n, kind), "best", {"kind": kind, "n": n}, {}))
    for ks in itertools.product(["aic", "aicc"], repeat=2):
        out.append(("ordering-%s-%s" % ks, "ordering", {"kinds": list(ks)}, {}))
    return out
