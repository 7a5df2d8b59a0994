"""Peak stability: runs, selection, saving and loading."""
from checks.funcs import *  # noqa: F401,F403
from checks.C10 import flat
from checks.C17 import function, nearall, part, samepart, samefunction, splines

FUNCTIONS = ["peakstability.PeakStability.run/setcurrent/save/load/setppe", "peakextraction.PeakExtraction.setvars/clearcalc/writestr/readstr", "pdfpeakextraction.PDFPeakExtraction.resampledata", "modelcluster.ModelCluster.__init__"]
BOUNDS = ("runs of at most 3 uncertainties (all positive values), the extraction being a stand-in that returns any of several models on grids of 2 or 3 arbitrary points, or the real extraction of 3 points with a stand-in optimiser; "
          "selections of at most 3 (quick) / 4 steps among 3 results; results of at most 2 peaks of all parameters and flags, every kind of baseline")


def data(h, n=3, symbolic=True):
    """An extraction with data of n points on a unit grid."""
    e = h.cls("pdfpeakextraction", "PDFPeakExtraction")()
    y = [h.real("y%d" % i, pos=True) for i in range(n)] if symbolic else [1.0, 4.0, 2.0, 1.0][:n]
    e.x, e.y = h.arr([1.0 + i for i in range(n)]), h.arr(y)
    e.dx, e.dy = h.arr([0.0] * n), h.arr([0.0] * n)
    e.effective_dy = h.arr([0.5] * n)
    e.pf = [peakfn(h, "gaussian", 0.7)]
    e.cres = 0.5
    e.rng = [1.0, 1.0 * n]
    e.initial_peaks = h.cls("peaks.base", "Peaks")([])
    e.error_method = h.cls("modelevaluators.aic", "AIC")
    e.qmax, e.qmax_fromdata, e.qmax_reportedbypdf, e.nyquist, e.scale, e.supersample, e.filename = 0.0, 0.0, 0.0, False, False, 4.0, "x"
    e.baseline = actualize(h, peakfn(h, "poly0"), [0.25])
    return e, y


def cluster(h, e, i, npk, n):
    """What extraction number i finds."""
    f = e.pf[0]
    ps = h.cls("peaks.base", "Peaks")([actualize(h, f, [h.real("p%d.%d.%d" % (i, j, k)) for k in range(2)]) for j in range(npk)])
    r = h.increasing("r%d." % i, n)
    bl = actualize(h, peakfn(h, "poly0"), [h.real("b%d" % i)])
    ones = h.arr([1.0] * n)
    return h.cls("modelcluster", "ModelCluster")(ps, bl, r, ones, ones, None, e.error_method, e.pf)


def run(h):
    """One extraction per uncertainty."""
    e, y = data(h)
    e.pf = [flat(h)]
    n = h.p["n"]
    es = [h.real("e%d" % i, pos=True) for i in range(n)]
    found = [cluster(h, e, i, h.choice("peaks%d" % i, [0, 1, 2] if n < 3 else [0, 1]), 2 + (i % 2 if n > 1 else h.choice("points", [0, 1]))) for i in range(n)]
    seen, covs = [], []

    def extract(**kw):
        i = len(seen)
        h.prove(not kw, "a plain extraction")
        h.prove(e.extracted is None, "nothing is left of earlier extractions")
        seen.append(list(e.effective_dy))
        e.extracted = found[i]
        e.extraction_type = "extract"
        covs.append(object())
        return covs[-1]
    e.extract = extract
    if h.p.get("before"):
        e.extracted = cluster(h, e, 9, 1, 2)
    s = h.cls("peakstability", "PeakStability")()
    s.setppe(e)
    s.results = [[1.0, None, None, 2.0]] * (1 if h.p.get("before") else 0)
    kw = {"savecovs": True} if h.p["covs"] else {}
    with h.quiet():
        out = s.run(h.arr(es) if h.p.get("array", True) else es, **kw)
    h.prove(len(seen) == n, "one extraction per uncertainty")
    h.prove(len(s.results) == n, "one result per uncertainty")
    for i in range(n):
        h.prove(len(seen[i]) == 3 and h.exact(seen[i], [es[i]] * 3), "with exactly that uncertainty, in order")
        r = s.results[i]
        h.prove(len(r) == 4 and h.exact(r[0], es[i]), "the uncertainty is recorded")
        h.prove(r[1] is found[i].model and r[2] is found[i].baseline, "peaks and baseline are recorded")
        g = found[i].r_cluster
        h.prove_eq(r[3], (g[-1] - g[0]) / (len(g) - 1), "the sampling step is recorded")
    h.prove(list(out) == (covs if h.p["covs"] else []), "covariances are returned if asked for")
    h.prove(h.exact(list(e.y), y), "the data are kept")


def fullrun(h):
    """The real extraction; results of earlier uncertainties stay as they were."""
    e, y = data(h)
    n = h.p["n"]
    kind = h.p["baseline"]
    c0 = h.real("c0")
    e.baseline = actualize(h, peakfn(h, "poly0"), [c0]) if kind == "part" else actualize(h, peakfn(h, "poly-1"), [])
    f = flat(h)
    e.pf = [f]
    before = e.baseline
    # one hump, or two whose clusters are combined last
    h.assume(h.andb(y[1] > y[0], y[1] > y[2]) if h.p.get("hump", True) else h.andb(y[1] < y[0], y[1] < y[2]))
    calls = []

    def leastsq(func, x0, *a, **k):
        calls.append(list(x0))
        x = h.arr([h.real("fit%d.%d" % (len(calls), i)) for i in range(len(x0))])
        return x, None, {}, "", 1
    got = {}
    es = [h.real("e%d" % i, pos=True) for i in range(n)]
    MC = h.cls("modelcluster", "ModelCluster")

    def fit(self, *a, **k):
        self.last_fit_size = self.size
        if k.get("fitbaseline") and self.baseline.npars():
            self.baseline.pars = h.arr([h.real("new%d" % len(calls))])
            calls.append(1)
        return None
    h.setattr(MC, "fit", fit)
    h.setattr(MC, "prune", lambda self: None)
    h.setattr(MC, "contingent_fit", lambda self, *a, **k: None)
    ext = type(e).extract

    def extract(**kw):
        r = ext(e, **kw)
        got[len(got)] = ([list(p.pars) for p in e.extracted.model], list(e.extracted.baseline.pars), list(e.effective_dy))
        return r
    e.extract = extract
    s = h.cls("peakstability", "PeakStability")()
    s.setppe(e)
    with h.quiet():
        s.run(es)
    h.prove(len(s.results) == n and len(got) == n, "one result per uncertainty")
    for i, r in enumerate(s.results):
        h.prove(h.exact(r[0], es[i]) and h.exact(got[i][2], [es[i]] * 3), "the uncertainty used is recorded")
        h.prove(h.exact([list(p.pars) for p in r[1]], got[i][0]), "the peaks found are recorded")
        h.prove(h.exact(list(r[2].pars), got[i][1]), "the baseline found is recorded")
        h.prove_eq(r[3], 1.0, "the sampling step is recorded")
    if kind == "part":
        h.prove(h.exact(list(before.pars), [c0]), "the given baseline is kept for the next extraction")


def results(h, e, kinds, bfun, tag="", sign=True):
    """A list of results with arbitrary parameters and flags."""
    out = []
    k0 = h.choice("flags" + tag, list(range(6)))

    def flags(p, k):
        n = len(p.pars)
        p.free = h.np.array([[True] * n, [i % 2 == 0 for i in range(n)], [False] * n][k % 3], dtype=bool)
        p.removable, p.static_owner = [(True, False), (False, True), (True, True), (False, False), (False, True)][k % 5]
        return p
    for i, ks in enumerate(kinds):
        ps = [flags(part(h, fn(h, e, k), "%s%d.%d" % (tag, i, j), flags=False, sign=True), k0 + i + j) for j, k in enumerate(ks)]
        b = flags(part(h, bfun, "%sb%d" % (tag, i), flags=False, sign=sign), k0 + i + 2) if bfun is not None else None
        out.append([h.real("%se%d" % (tag, i), pos=True), h.cls("peaks.base", "Peaks")(ps), b, h.real("%sdr%d" % (tag, i), pos=True)])
    return out


def fn(h, e, k):
    if k == 0:
        return e.pf[0]
    if k == "ripples":
        return h.cls("peaks.terminationripples", "TerminationRipples")(e.pf[0], 20.0)
    return peakfn(h, "gaussianoverr", 0.5)


def shown(h, s, res, i, n, resampled):
    e = s.ppe
    r = res[i]
    h.prove(s.current == i, "the selected result is current")
    h.prove(e.extracted is not None and len(e.effective_dy) == n and h.exact(list(e.effective_dy), [r[0]] * n), "the uncertainty of the result is used")
    mc = e.extracted
    h.prove(h.exact(resampled[-1][0], r[3]), "the data are resampled as in the result")
    h.prove(len(mc.r_cluster) == len(resampled[-1][1]) and h.exact(list(mc.r_data), resampled[-1][1]) and h.exact(list(mc.y_data), resampled[-1][2]) and h.exact(list(mc.y_error), resampled[-1][3]), "the extraction shows the resampled data")
    h.prove(len(mc.model) == len(r[1]), "exactly the peaks of the result")
    for p, q in zip(mc.model, r[1]):
        samepart(h, q, p, "peak shown")
    h.prove((mc.baseline is None) == (r[2] is None), "the baseline of the result")
    if r[2] is not None:
        samepart(h, r[2], mc.baseline, "baseline shown")
    h.prove(mc.error_method is e.error_method and mc.peak_funcs is e.pf, "criterion and functions are those of the extraction")


def fakesampling(h, e, real=False):
    seen = []
    orig = e.resampledata

    def resampledata(dr, eps=None):
        if real:
            out = orig(dr)
        else:
            k = len(seen)
            out = (h.increasing("rs%d." % k, 2), h.arr(h.reals("ys%d." % k, 2)), None, h.arr(h.reals("es%d." % k, 2, pos=True)))
        seen.append((dr, list(out[0]), list(out[1]), list(out[3])))
        return out
    e.resampledata = resampledata
    return seen


def copyof(h, res):
    """What the results are now."""
    return [[r[0], [(list(p.pars), list(p.free), p.removable, p.static_owner, p.owner()) for p in r[1]],
             None if r[2] is None else (list(r[2].pars), list(r[2].free), r[2].removable, r[2].static_owner, r[2].owner()), r[3]] for r in res]


def unchanged(h, old, res):
    new = copyof(h, res)
    h.prove(len(new) == len(old), "results are kept")
    for a, b in zip(old, new):
        h.prove(h.exact(a[0], b[0]) and h.exact(a[3], b[3]) and len(a[1]) == len(b[1]), "results are kept")
        for u, v in list(zip(a[1], b[1])) + ([(a[2], b[2])] if a[2] is not None else []):
            h.prove(h.exact(u[0], v[0]) and [bool(t) for t in u[1]] == [bool(t) for t in v[1]] and u[2:] == v[2:], "results are kept")


def select(h):
    e, y = data(h)
    s = h.cls("peakstability", "PeakStability")()
    s.setppe(e)
    s.results = results(h, e, h.p["kinds"], None if h.p.get("nobase") else peakfn(h, "poly1"))
    if h.p.get("real"):
        for r in s.results:
            r[3] = 1.0
    if h.p.get("clear"):
        e.effective_dy = None
    old = copyof(h, s.results)
    seen = fakesampling(h, e, h.p.get("real"))
    n = len(s.results)
    for k in range(h.p["steps"]):
        i = h.choice("select%d" % k, list(range(n)) + [None])
        s.setcurrent(i)
        if i is None:
            h.prove(e.extracted is None and s.current is None, "no result is shown")
        else:
            shown(h, s, s.results, i, 3, seen)
            if h.p.get("real"):
                h.prove(h.exact(seen[-1][1], [1.0, 2.0]) and h.andb(*[h.eq(a, b) for a, b in zip(seen[-1][2], y)]), "at the sampling of the data, the data themselves")
                h.prove(h.andb(*[h.eq(a, s.results[i][0]) for a in seen[-1][3]]), "with the uncertainty of the result")
    unchanged(h, old, s.results)


def trip(h):
    """Save and load."""
    h.text()
    e, y = data(h, symbolic=False)
    kind = h.p["baseline"]
    if kind == "sequence":
        splines(h)
        bf = h.cls("baselines.fromsequence", "FromSequence")(h.arr([0.5, 1.25, 4.0]), h.arr([1.0, 0.5, 0.25]))
    else:
        bf = peakfn(h, "nano" if kind == "nano" else kind) if kind else None
    e.baseline = bf if h.p.get("function") else None if bf is None else part(h, bf, "bl", flags=False)
    s = h.cls("peakstability", "PeakStability")()
    s.setppe(e)
    s.results = results(h, e, h.p["kinds"], bf, sign=kind != "nano")
    if s.results:
        for r in s.results:
            r[3] = 1.0
    old = copyof(h, s.results)
    path = h.path("results")
    s.save(path)
    unchanged(h, old, s.results)
    h.prove(len(s.results) == len(old) and all(r[2] is None or hasattr(r[2], "pars") for r in s.results), "saving keeps the results")
    P = h.cls("pdfpeakextraction", "PDFPeakExtraction")
    l = h.cls("peakstability", "PeakStability")()
    if h.p.get("used"):
        l.results, l.current = results(h, e, [[0]] * 4, None, "u"), 3
    l.load(path)
    h.prove(isinstance(l.ppe, P), "the extraction is restored")
    h.prove(len(l.results) == len(old), "every result is restored")
    for a, b in zip(s.results, l.results):
        h.prove(len(b) == 4 and h.exact(a[0], b[0]) and h.exact(a[3], b[3]), "uncertainty and step")
        h.prove(len(a[1]) == len(b[1]) and type(a[1]) is type(b[1]), "as many peaks")
        for p, q in zip(a[1], b[1]):
            samepart(h, p, q, "peak")
        h.prove((a[2] is None) == (b[2] is None), "baseline unset if it was")
        if a[2] is not None:
            samepart(h, a[2], b[2], "baseline")
    if not old:
        h.prove(l.ppe.extracted is None and l.current is None, "nothing to show")
        return
    h.prove(l.current == 0, "the first result is shown")
    mc = l.ppe.extracted
    h.prove(h.exact(list(l.ppe.effective_dy), [old[0][0]] * 3), "at its uncertainty")
    h.prove(mc is not None and len(mc.model) == len(l.results[0][1]), "peaks of the first result")
    for p, q in zip(mc.model, l.results[0][1]):
        samepart(h, p, q, "peak shown")
    h.prove(h.exact([float(v) for v in l.ppe.x], [1.0, 2.0, 3.0]) and h.exact([float(v) for v in l.ppe.y], [1.0, 4.0, 2.0]), "data of the extraction")
    h.prove(l.ppe.error_method is e.error_method and len(l.ppe.pf) == 1, "variables of the extraction")
    samefunction(h, e.pf[0], l.ppe.pf[0], "peak function")


def scenarios(tier):
    q = tier == "quick"
    out = []
    for n in (0, 1, 2, 3):
        for cv in (False, True):
            out.append(("run%d%s" % (n, "-cov" if cv else ""), "run", {"n": n, "covs": cv, "array": n != 2, "before": n == 2}, {"weight": n + 1, "max_validate": 100}))
    for b in ("part", "none"):
        out.append(("extract-" + b, "fullrun", {"n": 2, "baseline": b}, {"weight": 5}))
        out.append(("extract-valley-" + b, "fullrun", {"n": 2, "baseline": b, "hump": False}, {"weight": 5}))
    for k, v in {"three": [[0], [0, 1], []], "ripples": [["ripples"], [0]]}.items():
        out.append(("select-" + k, "select", {"kinds": v, "steps": 2 if q else 3}, {"weight": 4, "max_validate": 150}))
    out.append(("select-long", "select", {"kinds": [[], [], []], "steps": 3 if q else 4, "nobase": True}, {"weight": 3, "max_validate": 150}))
    out.append(("select-real", "select", {"kinds": [[0], [1]], "steps": 2, "real": True}, {"weight": 3, "max_validate": 150}))
    out.append(("select-nody", "select", {"kinds": [[0], [1]], "steps": 1, "clear": True}, {"weight": 3, "max_validate": 150}))
    for b in ("poly1", "poly-1", "nano", "sequence", "poly2"):
        for f in (False, True):
            if b == "sequence" and f and False:
                continue
            out.append(("trip-%s%s" % (b, "-function" if f else ""), "trip", {"baseline": b, "function": f, "kinds": [[0], [1, "ripples"], []]}, {"weight": 3, "max_validate": 80}))
    out.append(("trip-nobase", "trip", {"baseline": None, "kinds": [[0], []]}, {"max_validate": 80}))
    out.append(("trip-empty", "trip", {"baseline": "poly1", "kinds": []}, {}))
    out.append(("trip-used", "trip", {"baseline": "poly0", "kinds": [[0, 0]], "used": True}, {"max_validate": 80}))
    return out
