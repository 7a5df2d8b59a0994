"""Multimodel selection."""
import itertools

from checks.funcs import *  # noqa: F401,F403
from checks.C10 import evaluator, flat, want

FUNCTIONS = ["multimodelselection.MultimodelSelection.makeaics/loadaics/makeaicweights/makeaicprobs/makesortedprobs/classify/makesortedclasses/makeclassweights/makeclassprobs/makesortedclassprobs",
             "MultimodelSelection.dg_key/bestclasses/bestmodels/classbestdgs/modelbestdgs/get/get_model/get_class/get_prob/get_nfree/get_aic/maxprob*", "modelevaluators.*"]
BOUNDS = ("at most 3 (quick) / 4 candidates of at most 2 peaks of constant height plus a polynomial, 3 data points with all real data, 2 / 3 uncertainties with all positive values; classification for all heights and tolerances; "
          "queries for all values of the criteria and every partition of the candidates into classes; probabilities there are normalised by a linear rule in place of the exponential, which has scenarios of its own")


def selection(h, EM, results, dgs=None):
    m = h.cls("multimodelselection", "MultimodelSelection")()
    ppe = h.cls("pdfpeakextraction", "PDFPeakExtraction")()
    ppe.error_method = EM
    m.setppe(ppe)
    m.results = results
    if dgs is not None:
        m.dgs = h.arr(dgs)
    return m


def linear(h):
    """A criterion whose weights are linear: 1 - stat."""
    B = h.cls("modelevaluators.base", "ModelEvaluator")

    class Linear(B):
        def __init__(self):
            B.__init__(self, "Linear", False)

        @staticmethod
        def akaikeweights(aics):
            return h.arr([1 - a.stat for a in aics])

        @staticmethod
        def akaikeprobs(aics):
            w = [1 - a.stat for a in aics]
            t = sum(w[1:], w[0])
            return h.arr([x / t for x in w])
    return Linear


def model(h, fl, i, npk, base, frees=None):
    """Peaks of constant value plus a constant baseline."""
    hs = [h.real("h%d.%d" % (i, j)) for j in range(npk)]
    peaks = [actualize(h, fl, [0.5, x], None if frees is None else list(frees)) for x in hs]
    c = None
    if base == "poly0":
        c = h.real("c%d" % i)
        b = actualize(h, peakfn(h, "poly0"), [c])
    elif base == "poly1":
        c = h.real("c%d" % i)
        b = actualize(h, peakfn(h, "poly1"), [0.0, c])
    else:
        b = actualize(h, peakfn(h, "poly-1"), [])
    return h.cls("peaks.base", "Peaks")(peaks), b, hs, c


def ascending(h, order, vals, label):
    h.prove(sorted(order) == list(range(len(vals))), label + ": every candidate once")
    for a, b in zip(order, order[1:]):
        h.prove(vals[a] <= vals[b], label + ": from least to most probable")


def criteria(h):
    """makeaics, and what it saves."""
    kind, n, nd = h.p["kind"], h.p["n"], h.p["dgs"]
    EM = evaluator(h, kind)
    fl = flat(h)
    dgs = [h.real("dg%d" % i, pos=True) for i in range(nd)]
    for a, b in itertools.combinations(dgs, 2):
        h.assume(a < b)
    if h.p.get("order"):
        dgs = [dgs[i] for i in h.p["order"]]
    r, y = h.increasing("r", n), h.reals("y", n)
    res, tot, free = [], [], []
    for i, (npk, fr) in enumerate(h.p["models"]):
        p, b, hs, c = model(h, fl, i, npk, "poly0", fr)
        res.append([h.real("e%d" % i), p, b, 0.25])
        tot.append(sum(hs, 0.0) + c)
        free.append(npk * sum(fr) if fr else 2 * npk)
    m = selection(h, EM, res)
    asked = []
    bad = h.real("dy", pos=True)

    def resample(dr):
        asked.append(dr)
        return h.arr(list(r)), h.arr(y), None, h.arr([bad] * n)
    m.ppe.resampledata = resample
    m.ppe.pf = [fl]
    path = h.path("aics")
    dr = h.real("dr", pos=True)
    with h.quiet():
        m.makeaics(h.arr(dgs) if h.p.get("array", True) else dgs, dr, filename=path)
    h.prove(len(asked) == 1 and h.exact(asked[0], dr), "the data are resampled once as given")
    h.prove(len(m.dgs) == nd and h.exact(list(m.dgs), dgs), "the uncertainties are those given")
    l = selection(h, EM, res)
    l.loadaics(path)
    ds = [dgs[h.p["order"].index(i)] for i in range(nd)] if h.p.get("order") else dgs
    h.prove(len(l.dgs) == nd and h.exact(list(l.dgs), ds), "the uncertainties are loaded")
    for dg in dgs:
        h.prove(len(m.aics[dg]) == len(res) == len(l.aics[dg]), "a criterion for each candidate")
        for i, t in enumerate(tot):
            chi = sum([((t - v) / dg) ** 2 for v in y], 0.0)
            h.prove(type(m.aics[dg][i]) is EM and type(l.aics[dg][i]) is EM, "the criterion is that of the extraction")
            h.prove_eq(m.aics[dg][i].stat, want(kind, chi, free[i], n), "chi-square at the uncertainty plus penalty")
            h.prove(h.exact(l.aics[dg][i].stat, m.aics[dg][i].stat), "saved criteria read back the same")
        if h.p.get("probs"):
            for s in (m, l):
                stats = [a.stat for a in m.aics[dg]]
                probabilities(h, stats, s.aicprobs[dg], s.aicweights[dg])
                h.prove(sorted(s.sortedprobs[dg]) == list(range(len(res))), "every candidate is ordered once")
                for a, b in zip(s.sortedprobs[dg], s.sortedprobs[dg][1:]):
                    h.prove(stats[a] >= stats[b], "candidates from least to most probable")
    for a, b in zip(res, m.results):
        h.prove(a is b, "results are kept")


def probabilities(h, stats, probs, weights=None):
    mn = stats[0]
    for s in stats[1:]:
        if bool(s < mn):
            mn = s
    ref = [h.exp(-(s - mn) / 2) for s in stats]
    t = sum(ref[1:], ref[0])
    h.prove(len(probs) == len(stats), "a probability for each")
    for i, x in enumerate(ref):
        h.prove_eq(probs[i], x / t, "probabilities are Akaike's")
        if weights is not None:
            h.prove_eq(weights[i], x, "weights are Akaike's")


def fixedclasses(h):
    """Weights, probabilities and orders of given classes (exponential)."""
    EM = evaluator(h, h.p["kind"])
    classes = h.p["classes"]
    n = sum(len(c) for c in classes)
    ss = [h.real("s%d" % i, lo=0, hi=200) for i in range(n)]
    m = selection(h, EM, [[0.1, None, None, 0.1]] * n, [0.5])
    em = []
    for s in ss:
        em.append(EM())
        em[-1].stat = s
    m.aics = {0.5: em}
    m.classes = [list(c) for c in classes]
    m.makeaicweights(), m.makeaicprobs(), m.makesortedprobs()
    m.makesortedclasses(), m.makeclassweights(), m.makeclassprobs(), m.makesortedclassprobs()
    probabilities(h, ss, m.aicprobs[0.5], m.aicweights[0.5])
    best = []
    for c, o in zip(classes, m.sortedclasses[0.5]):
        h.prove(sorted(o) == sorted(c), "members of a class are ordered")
        for a, b in zip(o, o[1:]):
            h.prove(ss[a] >= ss[b], "members from least to most probable")
        best.append(ss[o[-1]])
    probabilities(h, best, m.classprobs[0.5], m.classweights[0.5])
    h.prove(sorted(m.sortedclassprobs[0.5]) == list(range(len(classes))), "every class is ordered once")
    for a, b in zip(m.sortedclassprobs[0.5], m.sortedclassprobs[0.5][1:]):
        h.prove(best[a] >= best[b], "classes from least to most probable")


def agree(h, a, b, tol, n):
    """Whether two values, constant over n points, agree within the tolerance."""
    d = abs(a * a - b * b)
    return h.andb(d <= tol * a * a, d <= tol * b * b)


def classification(h):
    fl = flat(h)
    EM = linear(h)
    spec = h.p["models"]
    n = len(spec)
    pts = h.p.get("points", 1)
    res, kinds = [], []
    for i, (npk, base) in enumerate(spec):
        fl_i = fl if not h.p.get("pars") or h.p["pars"][i] == 2 else flat(h, 3)
        if fl_i is fl:
            p, b, hs, c = model(h, fl, i, npk, base)
        else:
            hs = [h.real("h%d.%d" % (i, j)) for j in range(npk)]
            p = h.cls("peaks.base", "Peaks")([actualize(h, fl_i, [0.5, x, 1.0]) for x in hs])
            b, c = actualize(h, peakfn(h, base), []), None
        res.append([0.1, p, b, 0.25])
        kinds.append((npk, base, len(p[0]) if npk else 0, hs, c))
    m = selection(h, EM, res, [0.5])
    em = []
    for i in range(n):
        em.append(EM())
        em[-1].stat = h.p["stats"][i]
    m.aics = {0.5: em}
    m.classes, m.classes_idx = [[0, 1, 2, 3]], {0: 0}
    r = h.arr([0.25 * i for i in range(pts)])
    tol = None
    if h.p.get("default"):
        tol = 0.05
        m.classify(r)
    else:
        tol = h.real("tol", lo=0, hi=1)
        m.classify(r, tolerance=tol)
    h.prove(h.exact(m.class_tolerance, tol), "the tolerance is recorded")
    h.prove(sorted(i for c in m.classes for i in c) == list(range(n)), "each candidate is in exactly one class")
    h.prove(sorted(m.classes_idx) == list(range(n)) and all(i in m.classes[m.classes_idx[i]] for i in range(n)), "the class of each candidate is known")

    def same(i, j):
        a, b = kinds[i], kinds[j]
        if a[:3] != b[:3]:
            return False
        cs = [agree(h, x, y, tol, pts) for x, y in zip(a[3], b[3])]
        if a[4] is not None:
            cs.append(agree(h, a[4], b[4], tol, pts))
        return h.andb(*cs) if cs else True
    for k, c in enumerate(m.classes):
        h.prove(c == sorted(c), "members in order")
        for i in c[1:]:
            s = same(i, c[0])
            h.prove(s, "members agree with the first member of their class")
        for d in m.classes:
            if d[0] < c[0]:
                s = same(c[0], d[0])
                h.prove(h.notb(s) if s is not True else False, "a class is new only if its first member agrees with that of no other")
    # everything derived is that of the classes
    st = h.p["stats"]
    o = m.sortedclasses[0.5]
    h.prove([sorted(x) for x in o] == m.classes and all(st[a] >= st[b] for x in o for a, b in zip(x, x[1:])), "classes are ordered")
    best = [min(st[i] for i in c) for c in m.classes]
    t = sum(1 - b for b in best)
    h.prove(all(abs(p - (1 - b) / t) < 1e-9 for p, b in zip(m.classprobs[0.5], best)) and len(m.classprobs[0.5]) == len(best), "classes have the probability of their best member")
    h.prove(all(abs(p - (1 - b)) < 1e-9 for p, b in zip(m.classweights[0.5], best)), "classes have the weight of their best member")
    so = m.sortedclassprobs[0.5]
    h.prove(sorted(so) == list(range(len(best))) and all(best[a] >= best[b] for a, b in zip(so, so[1:])), "classes from least to most probable")


def queries(h):
    EM = linear(h)
    n, nd = h.p["n"], h.p["dgs"]
    classes = h.choice("classes", h.p["classes"])
    dgs = [0.5, 0.25, 1.0][:nd]
    fl = flat(h)
    P = h.cls("peaks.base", "Peaks")
    res = []
    nfree = []
    for i in range(n):
        k = i % 3
        b = actualize(h, peakfn(h, "poly0"), [0.0], [i % 2 == 0])
        res.append([0.1, P([actualize(h, fl, [0.5, 1.0], [True, j == 0]) for j in range(k)]), b, 0.25])
        nfree.append((0, 2, 3)[k] + (1 if i % 2 == 0 else 0))
    m = selection(h, EM, res, dgs)
    stats = {}
    for d, dg in enumerate(dgs):
        stats[dg] = [h.real("s%d.%d" % (d, i), lo=0) for i in range(n)]
        m.aics[dg] = []
        for s in stats[dg]:
            h.assume(s < 1)
            m.aics[dg].append(EM())
            m.aics[dg][-1].stat = s
    m.classes = [list(c) for c in classes]
    m.classes_idx = {i: k for k, c in enumerate(classes) for i in c}
    m.makeaicweights(), m.makeaicprobs(), m.makesortedprobs()
    m.makesortedclasses(), m.makeclassweights(), m.makeclassprobs(), m.makesortedclassprobs()
    m.sortedclassprobs = {k: list(v) for k, v in m.sortedclassprobs.items()}
    S = stats

    def isbest(dg, i):
        return h.andb(*[S[dg][i] <= s for s in S[dg]])

    def bestin(dg, i, c):
        return h.andb(*[S[dg][i] <= S[dg][j] for j in classes[c]])
    part = h.p["part"]
    ask = [dgs[i] for i in h.p["ask"]] if h.p.get("ask") else None
    used = dgs if ask is None else ask
    kw = {} if ask is None else {"dgs": h.arr(ask)}
    if part == "best":
        bm = [int(i) for i in m.bestmodels(**kw)]
        bc = [int(i) for i in m.bestclasses(**kw)]
        h.prove(bm == sorted(set(bm)) and bc == sorted(set(bc)), "best models and classes are listed once")
        for dg in used:
            h.prove(h.orb(*[isbest(dg, i) for i in bm]), "a best model at each uncertainty is listed")
            h.prove(h.orb(*[h.orb(*[isbest(dg, i) for i in classes[c]]) for c in bc]), "a best class at each uncertainty is listed")
        for i in bm:
            h.prove(h.orb(*[isbest(dg, i) for dg in used]), "each listed model is best at some uncertainty")
        for c in bc:
            h.prove(h.orb(*[isbest(dg, i) for dg in used for i in classes[c]]), "each listed class is best at some uncertainty")
    elif part == "bestdgs":
        got = {c: [float(x) for x in m.classbestdgs(c, **kw)] for c in range(len(classes))}
        gom = {i: [float(x) for x in m.modelbestdgs(i, **kw)] for i in range(n)}
        h.prove(sorted(x for c in got for x in got[c]) == sorted(used), "each given uncertainty has one best class")
        h.prove(sorted(x for c in gom for x in gom[c]) == sorted(used), "each given uncertainty has one best model")
        for c in got:
            for dg in got[c]:
                h.prove(h.orb(*[isbest(dg, i) for i in classes[c]]), "a class is best at its uncertainties")
        for i in gom:
            for dg in gom[i]:
                h.prove(isbest(dg, i), "a model is best at its uncertainties")
    elif part == "get":
        dg = dgs[0]
        co, mo = h.choice("corder", list(range(len(classes)))), 0
        c = m.get_class(dg, corder=co)
        top = {k: min_(h, [S[dg][i] for i in cl]) for k, cl in enumerate(classes)}
        h.prove(count(h, [top[k] < top[c] for k in top]) <= co <= count(h, [top[k] <= top[c] for k in top]) - 1, "classes by rank")
        mo = h.choice("morder", list(range(len(classes[c]))))
        i = m.get_model(dg, corder=co, morder=mo)
        rank(h, S[dg], classes[c], i, mo, "members of a class by rank")
        if mo == 0 and co == 0:
            h.prove(m.get_model(dg) == i and m.get_class(dg) == c, "the best is the default")
            h.prove(isbest(dg, i), "the best model of the best class is the best model")
            h.prove(m.maxprobmodel_byclass(dg) == i, "the most probable model by class")
            h.prove(isbest(dg, m.maxprobmodel_bymodel(dg)), "the most probable model")
        kws = dict(corder=co, morder=mo)
        check(h, m, dg, i, c, kws, m.classprobs[dg][c], S, nfree)
        k = h.choice("cls", list(range(len(classes))) + [None])
        if k is None:
            mo = h.choice("morder2", list(range(n)))
            i = m.get_model(dg, cls=None, morder=mo)
            rank(h, S[dg], list(range(n)), i, mo, "models by rank")
            check(h, m, dg, i, None, dict(cls=None, morder=mo), m.aicprobs[dg][i], S, nfree)
        else:
            mo = h.choice("morder2", list(range(len(classes[k]))))
            i = m.get_model(dg, cls=k, morder=mo)
            rank(h, S[dg], classes[k], i, mo, "members of the given class by rank")
            check(h, m, dg, i, None, dict(cls=k, morder=mo), m.classprobs[dg][k], S, nfree)
    elif part == "maxprob":
        for i in range(n):
            c = m.classes_idx[i]
            a, b = float(m.maxprobdG_byclass(i)), float(m.maxprobdG_bymodel(i))
            h.prove(a in dgs and b in dgs, "an uncertainty")
            for dg in dgs:
                h.prove(m.classprobs[a][c] >= m.classprobs[dg][c], "the class of the model is most probable")
                h.prove(m.aicprobs[b][i] >= m.aicprobs[dg][i], "the model is most probable")
    elif part == "key":
        x = h.real("x")
        k = float(m.dg_key(x))
        h.prove(k in dgs, "a key")
        for dg in dgs:
            h.prove(abs(k - x) <= abs(dg - x), "the nearest key")
    for dg in dgs:
        for i in range(n):
            h.prove(h.exact(m.aics[dg][i].stat, S[dg][i]), "criteria unchanged")
            h.prove_eq(m.aicprobs[dg][i], (1 - S[dg][i]) / total([1 - s for s in S[dg]]), "probabilities are those of the criterion")


def total(xs):
    return sum(xs[1:], xs[0])


def min_(h, xs):
    m = xs[0]
    for x in xs[1:]:
        if bool(x < m):
            m = x
    return m


def count(h, cs):
    return sum(1 for c in cs if bool(c))


def rank(h, stats, among, i, k, label):
    h.prove(i in among, label + " (member)")
    h.prove(count(h, [stats[j] < stats[i] for j in among]) <= k <= count(h, [stats[j] <= stats[i] for j in among]) - 1, label)


def check(h, m, dg, i, c, kws, prob, S, nfree):
    h.prove(h.exact(m.get_aic(dg, **kws), S[dg][i]), "criterion of the model")
    h.prove(m.get_nfree(dg, **kws) == nfree[i], "free parameters of the model")
    h.prove(h.exact(m.get_prob(dg, **kws), prob), "probability")
    got = m.get(dg, "model", "nfree", "aic", "prob", "dG", **kws)
    h.prove(isinstance(got, tuple) and got[0] == i and got[1] == nfree[i] and got[4] == dg, "values by name")
    h.prove(h.andb(h.exact(got[2], S[dg][i]), h.exact(got[3], prob)), "values by name")
    if c is not None:
        h.prove(m.get(dg, "class", **kws) == (c,), "class by name")


def partitions(n):
    """All partitions, classes ordered by their first member."""
    out = []

    def go(i, cs):
        if i == n:
            out.append([list(c) for c in cs])
            return
        for c in cs:
            c.append(i)
            go(i + 1, cs)
            c.pop()
        cs.append([i])
        go(i + 1, cs)
        cs.pop()
    go(0, [])
    return out


def scenarios(tier):
    q = tier == "quick"
    out = []
    fr = [True, False]
    for kind in ("aic", "aicc"):
        out.append(("criteria1-" + kind, "criteria", {"kind": kind, "n": 3, "dgs": 1, "models": [(1, None)], "array": False}, {}))
        out.append(("criteria2-" + kind, "criteria", {"kind": kind, "n": 2 if q else 3, "dgs": 2, "models": [(0, None), (2, fr)]}, {"weight": 3}))
        out.append(("unordered-" + kind, "criteria", {"kind": kind, "n": 2, "dgs": 3, "order": [2, 0, 1], "models": [(1, fr)]}, {"weight": 3}))
        out.append(("probs-" + kind, "criteria", {"kind": kind, "n": 1, "dgs": 1 if q else 2, "models": [(0, None), (1, fr)], "probs": True}, {"weight": 5}))
        for i, cl in enumerate([[[0]], [[0, 1]], [[0], [1]], [[0, 2], [1]], [[0], [1], [2]]] + ([] if q else [[[0, 3], [1, 2]], [[0], [1, 2, 3]], [[0, 1], [2], [3]]])):
            out.append(("exp%d-%s" % (i, kind), "fixedclasses", {"kind": kind, "classes": cl}, {"weight": 2}))
    st = [0.5, 0.25, 0.75, 0.125]
    cls = {"peaks": [(1, "poly-1")] * 3, "baseline": [(0, "poly0")] * 3, "both": [(1, "poly0")] * 2, "kinds": [(1, "poly0"), (1, "poly1"), (1, "poly-1"), (0, "poly0")],
           "two": [(2, "poly-1")] * 2, "counts": [(2, "poly-1"), (1, "poly-1"), (2, "poly-1")], "none": [(0, "poly-1")] * 3}
    if not q:
        cls["four"] = [(1, "poly-1")] * 4
        cls["two3"] = [(2, "poly-1")] * 3
        cls["both3"] = [(1, "poly0")] * 3
    for k, v in cls.items():
        out.append(("classify-" + k, "classification", {"models": v, "stats": st}, {"weight": 4}))
    out.append(("classify-default", "classification", {"models": [(1, "poly-1")] * 2, "stats": st, "default": True, "points": 3}, {}))
    out.append(("classify-points", "classification", {"models": [(1, "poly0")] * 2, "stats": st, "points": 2}, {}))
    out.append(("classify-pars", "classification", {"models": [(1, "poly-1")] * 3, "stats": st, "pars": [2, 3, 2]}, {"weight": 3}))
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for part in ("best", "bestdgs", "get", "maxprob", "key"):
            for ask in (None, [0], [1, 0]) if part in ("best", "bestdgs") else (None,):
                nd = 1 if part == "get" else 2
                if n == 4 and part in ("best", "bestdgs") and ask is None:
                    continue
                out.append(("%s%d%s" % (part, n, "" if ask is None else "-" + "".join(map(str, ask))), "queries",
                            {"n": n, "dgs": nd if part != "key" else 3, "classes": partitions(n)[1::2] if q and part == "maxprob" and n > 2 else partitions(n), "part": part, "ask": ask}, {"weight": n * 2, "max_validate": 200}))
    return out
