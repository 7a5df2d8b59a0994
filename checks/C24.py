"""Extraction and fitting: the data they use, the peaks they keep, the settings they pass on."""
import itertools

from checks.funcs import *  # noqa: F401,F403
from checks.C10 import flat
from checks.C13 import block

FUNCTIONS = ["peakextraction.PeakExtraction.extract_single/fit_single/estimate_peak/add_peaks/getrangeslice/defaultvars", "pdfpeakextraction.PDFPeakExtraction.extract/fit/errorscale",
             "dataclusters.DataClusters", "modelcluster.ModelCluster.__init__/change_slice/join_adjacent/replacepeaks/addexternalpeaks", "modelparts.ModelPart.changeowner", "peaks.base.Peaks"]
BOUNDS = ("searches of 3 points of any values and of 5 to 8 (quick) / 10 points of given shape, levels varying symbolically; at most 2 initial peaks of symbolic height; every fit, pruning and comparison of models is a stand-in with arbitrary outcome, at most one of the "
          "criterion's answers calling for a recursive search (thorough: two); peaks of constant value; PDF extractions and fits of 4 points with all values, steps, qmax, ranges of a choice and up to 3 peaks, the resampling a stand-in giving arbitrary grids")

SHAPES = {"two": [1, 6, 2, 5, 1.5], "three": [5, 1, 7, 2, 6, 1.5], "valley": [9, 3, 1, 2, 8, 2.5], "left": [8, 6, 4, 3, 2], "one": [2, 4, 9, 6, 3],
          "four": [4, 1, 6, 1.5, 7, 2, 5, 3], "wide": [1, 6, 2, 5, 1.5, 0.5, 4, 0.25], "long": [6, 1, 3, 8, 2, 5, 1.5, 7, 0.5, 4]}


def criterion(h, s):
    """A criterion whose answers are arbitrary."""
    ME = h.cls("modelevaluators.base", "ModelEvaluator")

    class Any(ME):
        def __init__(self):
            ME.__init__(self, "any", False)

        def evaluate(self, fit, count_fixed=False, kshift=0):
            s["nq"] += 1
            self.stat = h.choice("q%d" % s["nq"], [0.0, 1.0]) if s["nq"] <= s["maxq"] else 0.0
            return self.stat

        def minpoints(self, npars):
            return s["minpoints"]

        def growth_justified(self, fit, k_prime):
            s["ng"] += 1
            return s["ng"] - 1 in s["grow"]
    return Any


def height(p):
    return p.pars[1]


def tags(model):
    return [p.owner().tag for p in model]


def single(h):
    """The search: fits are stand-ins."""
    shape = h.p["shape"]
    n = len(shape) if isinstance(shape, list) else shape
    E = h.cls("peakextraction", "PeakExtraction")
    MC = h.cls("modelcluster", "ModelCluster")
    Peaks = h.cls("peaks.base", "Peaks")
    xs = [2.0 + i for i in range(n)]
    ys = [10.0 * v + h.real("y%d" % i, lo=-0.5, hi=0.5) for i, v in enumerate(shape)] if isinstance(shape, list) else h.reals("y", n, lo=0, hi=50)
    es = h.reals("e", n, lo=0.01, hi=0.2)
    s = {"nq": 0, "ng": 0, "maxq": h.p.get("maxq", 0), "minpoints": 1}
    s["grow"] = h.choice("grow", h.p.get("grow", [()]))
    crit = criterion(h, s)
    e = E()
    e.setdata(h.arr(xs), h.arr(ys), None, h.arr(es))
    ips, itags = [], ["i%d" % i for i in range(h.p.get("initial", 0))]
    for i, t in enumerate(itags):
        p = actualize(h, block(h, t, False), [3.25 + 1.5 * i, h.real("ih%d" % i, lo=-0.2, hi=0.2)], h.choice("ifree%d" % i, [[True, True], [False, True]]))
        p.removable, p.static_owner = h.choice("irem%d" % i, [True, False]), i == 1
        ips.append(p)
    c0 = h.real("c0", lo=-1, hi=1)
    base = actualize(h, peakfn(h, "poly0"), [c0])
    pfs = [block(h, "pf", False)]
    rng = h.choice("rng", h.p.get("rng", [None]))
    v = dict(cres=h.p.get("cres", 1.5), pf=pfs, baseline=base, error_method=crit)
    if itags:
        v["initial_peaks"] = Peaks(ips)
    if rng is not None:
        v["rng"] = [2.0 + rng[0] - 0.25, 2.0 + rng[1] - 1 + 0.5]
    e.setvars(**v)
    lo, hi = rng if rng is not None else (0, n)
    idx = range(lo, hi)
    made = {}           # tag -> (peak's height, found while searching all the data)
    depth, events, nests, shown = [0], [], [], []
    full = [None]

    def level(c):
        """Clusters of the whole search share its data."""
        return depth[0] == 1 and c.size is not None and len(c.r_data) == hi - lo

    def contingent(self, minpoints, growth):
        h.prove(self.error_method is crit and self.peak_funcs[0] is pfs[0] and len(self.peak_funcs) == 1, "the settings are used")
        if len(self.model) == 0 and self.size >= s["create"]:
            t = "d%d.%d" % (depth[0], len(made))
            k = self.y_cluster.argmax() if h.p.get("argmax") else len(self.r_cluster) // 2
            hh = h.real("h" + t, lo=0.001, hi=0.1)
            made[t] = (hh, depth[0] == 1)
            self.model.append(actualize(h, block(h, t, False), [self.r_cluster[k], hh]))
        data(self)
        return None
    s["create"] = h.choice("create", h.p.get("create", [1]))

    def data(c):
        """What is modelled: the data less other parts of the model."""
        model = tags(c.model)
        h.prove(len(set(model)) == len(model), "no peak is counted twice")
        h.prove(len(c.r_data) == len(c.y_data) == len(c.y_error), "as many uncertainties as points")
        known = [(t, v[0]) for t, v in made.items() if t not in model]
        fixed = sum([height(p) for t, p in zip(itags, ips) if t not in model and t != s.get("gone")], 0.0)
        js = []
        for x in c.r_data:
            j = [i for i in idx if h.exact(x, xs[i])]
            h.prove(len(j) == 1, "only data of the range are used")
            js += j
        h.prove(js == list(range(js[0], js[0] + len(js))), "the points are contiguous")
        h.prove(h.exact(list(c.y_error), [es[j] for j in js]), "the uncertainties are those of the points")
        conds = []
        for r in range(len(known) + 1):
            for sub in itertools.combinations(known, r):
                off = sum([k[1] for k in sub], 0.0) + fixed
                conds.append(h.andb(*[h.eq(c.y_data[i], ys[j] - off) for i, j in enumerate(js)]))
        h.prove(h.orb(*conds), "the data less peaks that are not in the model")
        h.prove(c.baseline is not None and h.exact(list(c.baseline.pars), [c0]), "the baseline is part of every model")

    def fit(self, justify=False, ntrials=0, fitbaseline=False, estimate=True, cov=None, cov_format="internal", **kw):
        events.append(("fit", self, fitbaseline, cov, depth[0]))
        data(self)
        if fitbaseline:
            s["newbase"] = h.real("newbase")
            self.baseline.pars = h.arr([s["newbase"]])

    def prune(self):
        events.append(("prune", self, None, None, depth[0]))
        data(self)
        if depth[0] == 1:
            h.prove(all(t in tags(self.model) for t in itags), "the initial peaks are part of what is pruned")
            if itags and ips[-1].removable and h.choice("pruned", [False, True]):
                self.model[:] = [p for p in self.model if p.owner().tag != itags[-1]]
                s["gone"] = itags[-1]

    def augment(self, source):
        h.prove(h.exact(list(source.r_data), list(self.r_data)), "peaks are added from a search of the same points")
        self.model[:] = list(self.model.copy()) + list(source.model.copy())
        self.model.sort(key="position")

    def extract(self, *a):
        depth[0] += 1
        try:
            if depth[0] > 1:
                h.prove(h.exact(self.cres, e.cres) and list(self.pf) == pfs and self.error_method is crit, "recursive searches use the same settings")
                h.prove(h.exact(list(self.baseline.pars), [c0]), "recursive searches use the same baseline")
                h.prove(len(self.initial_peaks) == 0, "recursive searches start without peaks")
                nests.append(depth[0])
            h.prove(depth[0] <= 3, "at most three levels of searches")
            return orig(self, *a)
        finally:
            depth[0] -= 1
    orig = E.extract_single
    h.setattr(E, "extract_single", extract)
    for k, f in [("fit", fit), ("prune", prune), ("augment", augment), ("contingent_fit", contingent), ("reduce_to", lambda self, x, y: None)]:
        h.setattr(MC, k, f)

    def emit(*mcs, **k):
        if depth[0] == 1:
            at = 0
            for m in mcs:
                a, b, st = m.slice.indices(hi - lo)
                h.prove(st == 1 and at <= a < b <= hi - lo, "clusters are disjoint and in order")
                h.prove(m.size == b - a and h.exact(list(m.r_cluster), [xs[lo + i] for i in range(a, b)]), "clusters cover their points")
                at = b
            total = sum([m.size for m in mcs])
            shown.append(total)
            have = [t for m in mcs for t in tags(m.model)]
            h.prove(len(set(have)) == len(have), "no peak is counted twice")
            h.prove(all(t in have for t, v in made.items() if v[1]), "no peak found is lost when clusters are combined")
    tr = h.mod("srmiselog").tracer
    h.setattr(tr, "emit", emit)
    prior = Peaks(list(ips))
    flags = [(list(p.pars), [bool(f) for f in p.free], p.removable, p.static_owner) for p in ips]
    e.extracted, e.extraction_type = "old", "old"
    cov = e.extract_single()
    mc = e.extracted
    h.prove(e.extraction_type == "extract_single" and isinstance(mc, MC), "the result is a model of the data")
    h.prove(all(a < b for a, b in zip(shown[:-1], shown[1:])) and shown[-1] == hi - lo, "each step covers more points, the last one all")
    h.prove(mc.size == hi - lo and h.exact(list(mc.r_data), [xs[i] for i in idx]) and h.exact(list(mc.r_cluster), [xs[i] for i in idx]), "the result covers the range")
    h.prove_eq(list(mc.y_data), [ys[i] for i in idx], "the result models the data")
    h.prove_eq(list(mc.y_cluster), [ys[i] for i in idx], "the result models the data")
    h.prove(h.exact(list(mc.error_cluster), [es[i] for i in idx]), "with their uncertainties")
    got = tags(mc.model)
    h.prove(len(set(got)) == len(got), "no peak is counted twice")
    h.prove(set(got) <= set(itags) | set(made), "only peaks given or found")
    h.prove(all(t in got for t, v in made.items() if v[1]), "no peak found is lost when clusters are combined")
    for t, p, o, (pars, free, rem, st) in zip(itags, ips, prior, flags):
        if t != s.get("gone"):
            q = [m for m in mc.model if m.owner().tag == t]
            h.prove(len(q) == 1, "initial peaks are in the model")
            q = q[0]
            h.prove(h.exact(list(q.pars), pars) and [bool(f) for f in q.free] == free and q.removable == rem and q.static_owner == st and q.owner() is p.owner(), "initial peaks keep their flags")
            h.prove(q is not p, "the initial peaks given are not part of the result")
        h.prove(h.exact(list(p.pars), pars) and [bool(f) for f in p.free] == free and p.removable == rem and p.static_owner == st, "the initial peaks given are not modified")
    if itags:
        h.prove(list(e.initial_peaks) == ips, "the initial peaks given are not modified")
    pos = [p.pars[0] for p in mc.model]
    h.prove(h.andb(*[a <= b for a, b in zip(pos[:-1], pos[1:])]), "the peaks are sorted")
    top = [v for v in events if v[4] == 1]
    h.prove([v[0] for v in top[-2:]] == ["prune", "fit"] and all(v[1] is mc for v in top[-2:]), "the result is pruned, then fitted")
    h.prove([v[0] for v in top].count("prune") == 1 and not any(v[2] for v in events if v is not top[-1]), "pruned once, the baseline fitted last")
    h.prove(top[-1][2] is True and top[-1][3] is cov and isinstance(cov, h.cls("modelcluster", "ModelCovariance")), "fitted with the baseline; the covariance is that of the result")
    h.prove(h.exact(list(mc.baseline.pars), [s["newbase"]]), "the result has the fitted baseline")
    h.prove(e.baseline is base and h.exact(list(base.pars), [c0]), "the baseline given is not modified")
    h.prove(h.exact(list(e.x), xs) and h.exact(list(e.y), ys) and h.exact(list(e.effective_dy), es), "the data are not modified")
    if h.p.get("nested"):
        h.prove(bool(nests) == bool(s["grow"] and s["ng"] > min(s["grow"])), "searched again where the criterion calls for more peaks")


def pdf(h):
    """A PDF extraction of 4 points."""
    n = 4
    P = h.cls("pdfpeakextraction", "PDFPeakExtraction")
    from checks.C15 import stubqmax
    stubqmax(h, None)
    e = P()
    xs = [1.0 + 0.5 * i for i in range(n)]
    s = {"xs": xs, "ys": h.reals("y", n), "es": h.reals("e", n, pos=True), "n": n}
    e.setdata(h.arr(xs), h.arr(s["ys"]), None, None)
    rng = h.choice("rng", h.p.get("rng", [None, (1, 4)]))
    s["idx"] = list(range(*(rng or (0, n))))
    q = h.real("q", lo=0.1, hi=60) if h.p["qmax"] else 0.0
    s["q"], s["crit"], s["pf"] = q, h.cls("modelevaluators.aic", "AIC"), [flat(h), flat(h, 3)]
    s["c0"] = h.real("c0")
    s["base"] = actualize(h, peakfn(h, "poly0"), [s["c0"]])
    kw = dict(effective_dy=h.arr(s["es"]), qmax=q, cres=0.7, pf=s["pf"], baseline=s["base"], error_method=s["crit"], nyquist=h.p.get("nyquist", False), scale=h.p.get("scale", False))
    if "supersample" in h.p:
        kw["supersample"] = h.real("ss", lo=1, hi=20)
    if rng:
        kw["rng"] = [xs[rng[0]] - 0.1, xs[rng[1] - 1] + 0.1]
    ips = []
    for i in range(h.p.get("initial", 0)):
        ips.append(actualize(h, s["pf"][0], [h.real("ix%d" % i), h.real("ih%d" % i)]))
    kw["initial_peaks"] = h.cls("peaks.base", "Peaks")(ips)
    s["ips"], s["ipars"] = ips, [list(p.pars) for p in ips]
    e.setvars(**kw)
    s["re"] = []

    def resampledata(dr, **k):
        i = len(s["re"])
        m = h.p.get("grid", 2)
        g = [h.real("g%d" % i, lo=-5, hi=5)]
        for j in range(1, m):
            g.append(g[-1] + h.real("w%d.%d" % (i, j), lo=0.01, hi=10))
        out = (h.arr(g), h.arr(h.reals("u%d." % i, m)), None, h.arr(h.reals("v%d." % i, m, pos=True)))
        s["re"].append((dr, [list(out[0]), list(out[1]), list(out[3])], s.get("now", lambda: None)()))
        return out
    e.resampledata = resampledata
    return e, s


def raw(h, e, s, scaled):
    f = e.errorscale(0.5) if scaled else 1.0
    return [s["xs"][i] for i in s["idx"]], [s["ys"][i] for i in s["idx"]], [f * s["es"][i] for i in s["idx"]]


def same(h, got, want, label):
    h.prove(len(got[0]) == len(want[0]) == len(got[1]) == len(got[2]), label)
    h.prove(h.exact(list(got[0]), list(want[0])) and h.exact(list(got[1]), list(want[1])), label)
    h.prove_eq(list(got[2]), list(want[2]), label + ": uncertainties")


def given(h, e, s):
    h.prove(h.exact(list(e.x), s["xs"]) and h.exact(list(e.y), s["ys"]) and h.exact(list(e.effective_dy), s["es"]), "the data are not modified")
    h.prove(h.exact(e.qmax, s["q"]) and e.pf is s["pf"] and e.error_method is s["crit"] and h.exact(e.cres, 0.7), "the settings are kept")


def apart(h, a, b):
    """Rounding decides when both are equal."""
    h.assume(h.orb(a > b * (1 + 1e-6), a < b * (1 - 1e-6)))


def extract(h):
    """Resampling and termination ripples around the search."""
    e, s = pdf(h)
    E = h.cls("peakextraction", "PeakExtraction")
    MC = h.cls("modelcluster", "ModelCluster")
    TR = h.cls("peaks.terminationripples", "TerminationRipples")
    q, q1 = s["q"], 13.0
    old = TR(s["pf"][0], q1)
    peaks, was = [], []
    for i in range(h.p["peaks"]):
        f, st = h.choice("owner%d" % i, h.p["owners"])
        f = old if f == "ripples" else s["pf"][f]
        k = f.npars
        fr = h.choice("free%d" % i, [[True] * k, [j > 0 for j in range(k)]] if i == 0 else [[True] * k])
        peaks.append(actualize(h, f, [float(i)] + [h.real("p%d.%d" % (i, j)) for j in range(1, k)], fr))
        peaks[-1].removable, peaks[-1].static_owner = i != 1, st
        was.append((f, list(peaks[-1].pars), [bool(b) for b in fr], peaks[-1].removable, st))
    ids = {id(p): i for i, p in enumerate(peaks)}
    seen, events = [], []

    def search(self, *a):
        h.prove(type(self) is E, "the search is that of plain data")
        seen.append((list(self.x), list(self.y), list(self.effective_dy), len(s["re"])))
        h.prove(list(self.rng) == [self.x[0], self.x[-1]] or h.exact(list(self.rng), [self.x[0], self.x[-1]]), "the search covers all its data")
        h.prove(h.exact(self.cres, 0.7) and list(self.pf) == s["pf"] and self.error_method is s["crit"] and h.exact(list(self.baseline.pars), [s["c0"]]), "the settings are used")
        h.prove(list(self.initial_peaks) == s["ips"] or h.exact([list(p.pars) for p in self.initial_peaks], s["ipars"]), "the initial peaks are used")
        self.extracted = MC(h.cls("peaks.base", "Peaks")(peaks), actualize(h, s["base"].owner(), [h.real("c1")]), self.x, self.y, self.effective_dy, None, self.error_method, self.pf)
        s["model"] = self.extracted
        self.extraction_type = "extract_single"
        return "covariance of the search"

    def index(p):
        return [i for i, w in enumerate(was) if h.exact(p.pars[0], float(i))][0]

    def fit(self, justify=False, ntrials=0, fitbaseline=False, estimate=True, cov=None, cov_format="internal", **kw):
        events.append(("fit", self, [index(p) for p in self.model], fitbaseline, cov, cov_format))
        s["model"] = self
        if fitbaseline:
            self.baseline.pars = h.arr([h.real("c2")])

    def prune(self):
        before = [index(p) for p in self.model]
        ripples(self)
        rem = [i for i, p in enumerate(self.model) if p.removable]
        if rem and h.choice("prune%d" % len([v for v in events if v[0] == "prune"]), [False, True]):
            del self.model[rem[-1]]
        s["model"] = self
        events.append(("prune", self, before, [index(p) for p in self.model]))

    def ripples(c):
        for p in c.model:
            f, pars, free, rem, st = was[index(p)]
            if st or f is old or not h.p["qmax"]:
                h.prove(p.owner() is f, "static peaks and those with ripples keep their function")
            else:
                o = p.owner()
                h.prove(isinstance(o, TR) and o.base is f and h.exact(o.qmax, q), "every other peak has termination ripples of qmax")
            h.prove(h.exact(list(p.pars), pars) and [bool(b) for b in p.free] == free and p.removable == rem and p.static_owner == st, "peaks keep their parameters and flags")
    s["now"] = lambda: s["model"].npars(count_fixed=False) if "model" in s else None
    h.setattr(E, "extract_single", search)
    h.setattr(MC, "fit", fit)
    h.setattr(MC, "prune", prune)
    e.extracted, e.extraction_type = "old", "old"
    cov = e.extract()
    mc = e.extracted
    h.prove(e.extraction_type == "extract" and isinstance(mc, MC), "the result is a model of the data")
    h.prove(len(seen) == 1, "one search")
    ny = h.p["qmax"] and h.p.get("nyquist")
    now = lambda c: (c.r_data, c.y_data, c.y_error)
    dr = 0.5
    if not h.p["qmax"]:
        h.prove(not s["re"], "without qmax nothing is resampled")
        same(h, seen[0], raw(h, e, s, False), "without qmax the measured data are searched")
        same(h, now(mc), raw(h, e, s, False), "without qmax the measured data are modelled")
    else:
        first = seen[0][3]
        apart(h, h.pi, q * dr * e.supersample)
        if bool(h.lt(h.pi, q * dr * e.supersample)):
            h.prove(first == 1, "data coarser than asked for are supersampled for the search")
            h.prove_eq(s["re"][0][0] * q * e.supersample, h.pi, "at the supersampled Nyquist interval")
            same(h, seen[0], s["re"][0][1], "the search is that of the supersampled data")
        else:
            h.prove(first == 0, "data fine enough are searched as they are")
            same(h, seen[0], raw(h, e, s, True), "data fine enough are searched as they are")
        later = s["re"][first:]
        prunes = [v for v in events if v[0] == "prune"]
        if not ny:
            h.prove(not later, "without Nyquist sampling the data searched are modelled")
            same(h, now(mc), seen[0], "without Nyquist sampling the data searched are modelled")
            h.prove(len(prunes) == 1 and prunes[0][1] is mc, "pruned once ripples are known")
        else:
            h.prove(len(later) >= 1 and len(prunes) == len(later), "resampled, then pruned")
            same(h, now(mc), later[-1][1], "the result models the resampled data")
            span = seen[0][0][-1] - seen[0][0][0]
            for k, (step, _, npars) in enumerate(later):
                apart(h, npars * h.pi, span * q)
                enough = h.lt(npars * h.pi, span * q)
                at = h.eq(step * q, h.pi)
                h.prove(h.implies(enough, at), "sampled at the Nyquist interval if there are more points than free parameters")
                h.prove(h.implies(h.notb(enough), h.andb(step * npars < span, step * npars >= 0.99 * span)), "else at the largest interval that leaves enough points")
                stop = h.orb(at, prunes[k][2] == prunes[k][3])
                h.prove(stop if k == len(later) - 1 else h.notb(stop), "until sampled at the Nyquist interval or no more peaks can be removed")
                fits = [v for v in events if v[0] == "fit" and v[1] is prunes[k][1]]
                h.prove(len(fits) >= 1 and events.index(fits[0]) < events.index(prunes[k]), "fitted to the new data before they are pruned")
                if k:
                    h.prove(prunes[k][2] == prunes[k - 1][3], "the model pruned is the one resampled")
    ripples(mc)
    keep = list(range(len(was)))
    for v in events:
        if v[0] == "prune":
            keep = v[3]
    h.prove([index(p) for p in mc.model] == keep, "the result has the peaks that were not removed")
    v = events[-1]
    h.prove(v[0] == "fit" and v[1] is mc and v[3] is True and v[4] is cov and v[5] == "default_output" and isinstance(cov, h.cls("modelcluster", "ModelCovariance")), "fitted with the baseline last; the covariance is that of the result")
    h.prove(sum([1 for v in events if v[0] == "fit" and v[3]]) == 1, "the baseline is fitted last")
    h.prove(mc.error_method is s["crit"] and list(mc.peak_funcs) == s["pf"], "the settings are used")
    given(h, e, s)
    h.prove(e.baseline is s["base"] and h.exact(list(s["base"].pars), [s["c0"]]), "the baseline given is not modified")
    h.prove(list(e.initial_peaks) == s["ips"] and h.exact([list(p.pars) for p in s["ips"]], s["ipars"]), "the initial peaks given are not modified")


def fitting(h):
    """Fitting the initial peaks."""
    e, s = pdf(h)
    MC = h.cls("modelcluster", "ModelCluster")
    events = []

    def fit(self, justify=False, ntrials=0, fitbaseline=False, estimate=True, cov=None, cov_format="internal", **kw):
        h.prove(not events, "fitted once")
        h.prove(fitbaseline is True and estimate is False and not justify and cov_format == "default_output", "the initial peaks are fitted with the baseline; no peak is estimated")
        h.prove(h.exact([list(p.pars) for p in self.model], s["ipars"]), "the fit starts at the initial peaks")
        h.prove(self.baseline is not None and h.exact(list(self.baseline.pars), [s["c0"]]), "the fit starts at the baseline")
        events.append((self, cov))

    def no(self, *a):
        h.prove(False, "a fit removes no peaks")
    h.setattr(MC, "fit", fit)
    h.setattr(MC, "prune", no)
    e.extracted, e.extraction_type = "old", "old"
    if h.p["single"]:
        cov = e.fit_single()
        kind = "fit_single"
    else:
        cov = e.fit()
        kind = "fit"
    mc = e.extracted
    h.prove(e.extraction_type == kind and isinstance(mc, MC) and len(events) == 1 and events[0][0] is mc and events[0][1] is cov and isinstance(cov, h.cls("modelcluster", "ModelCovariance")), "the covariance is that of the result")
    h.prove(len(mc.model) == len(s["ips"]) and [p.owner() for p in mc.model] == [p.owner() for p in s["ips"]], "the model has the initial peaks")
    if h.p["single"] or not h.p["qmax"] or not h.p.get("nyquist"):
        h.prove(not s["re"], "the measured data are fitted")
        same(h, (mc.r_data, mc.y_data, mc.y_error), raw(h, e, s, False), "the measured data are fitted")
    else:
        h.prove(len(s["re"]) == 1, "data sampled at the Nyquist interval are fitted")
        h.prove_eq(s["re"][0][0] * s["q"], h.pi, "data sampled at the Nyquist interval are fitted")
        same(h, (mc.r_data, mc.y_data, mc.y_error), s["re"][0][1], "data sampled at the Nyquist interval are fitted")
    h.prove(mc.size == len(mc.r_data) and mc.error_method is s["crit"] and list(mc.peak_funcs) == s["pf"], "the settings are used")
    given(h, e, s)


def estimate(h):
    """The peak estimated near a coordinate."""
    shape = h.p["shape"]
    n = len(shape)
    MC, Peaks = h.cls("modelcluster", "ModelCluster"), h.cls("peaks.base", "Peaks")
    E = h.cls("peakextraction", "PeakExtraction")
    xs = [2.0 + i for i in range(n)]
    ys = [10.0 * v + h.real("y%d" % i, lo=-0.5, hi=0.5) for i, v in enumerate(shape)]
    es = h.reals("e", n, lo=0.01, hi=0.2)
    e = E()
    e.setdata(h.arr(xs), h.arr(ys), None, h.arr(es))
    c0 = h.real("c0", lo=-1, hi=1)
    base = actualize(h, peakfn(h, "poly0"), [c0])
    crit, pfs = h.cls("modelevaluators.aic", "AIC"), [block(h, "pf", False)]
    npk = h.p.get("peaks", 0)
    ps = [actualize(h, block(h, i, False), [h.real("px%d" % i, lo=0, hi=12), h.real("ph%d" % i, lo=-5, hi=5)]) for i in range(npk)]
    for a, b in zip(ps[:-1], ps[1:]):
        h.assume(a.pars[0] <= b.pars[0])
    rng = h.choice("rng", h.p.get("rng", [(0, n)]))
    v = dict(cres=1.5, pf=pfs, baseline=base, error_method=crit, rng=[xs[rng[0]] - 0.25, xs[rng[1] - 1] + 0.25])
    done = h.p["extracted"]
    if npk and not done:
        v["initial_peaks"] = Peaks(ps)
    e.setvars(**v)
    idx = list(range(*rng))
    sub = sum([height(p) for p in ps], c0)
    if done:
        # an extraction of all points within the range
        c = MC(Peaks(ps), base, e.x[rng[0]:rng[1]], e.y[rng[0]:rng[1]], e.effective_dy[rng[0]:rng[1]], None, crit, pfs)
        e.extracted, e.extraction_type = c, "extract_single"
    pars = [list(p.pars) for p in ps]
    # the clusters, by the data less baseline and peaks (a constant level here)
    D = h.cls("dataclusters", "DataClusters")
    d = D(h.np.array([xs[i] for i in idx]), h.np.array([10.0 * shape[i] for i in idx]), 1.5)
    d.makeclusters()
    at = h.real("at", lo=0, hi=14)
    h.prove(len(d.clusters) >= 1, "clusters")
    seen = []
    new = [h.real("nx"), h.real("nh")]
    h.assume(new[0] >= -50)
    found = h.choice("found", [True, False])

    def fit(self, *a, **k):
        seen.append(self)
        h.prove(len(self.model) == 0 and self.error_method is crit and list(self.peak_funcs) == pfs, "a single new peak is fitted")
        if found:
            self.model.append(actualize(h, block(h, "new", False), new))
    h.setattr(MC, "fit", fit)
    add = h.choice("add", [None, True, False])
    f = (lambda: e.estimate_peak(at)) if add is None else (lambda: e.estimate_peak(at, add))
    if bool(h.orb(at < xs[idx[0]], at > xs[idx[-1]])):
        h.prove(h.raises(f, ValueError) is not None, "coordinates outside the range are refused")
        h.prove(not seen, "coordinates outside the range are refused")
        got, added = None, False
    else:
        got = f()
        h.prove(len(seen) == 1, "one fit")
        c = seen[0]
        js = [i for x in c.r_cluster for i in idx if h.exact(x, xs[i])]
        h.prove(len(js) == len(c.r_cluster) == c.size, "points of the data are fitted")
        h.prove((js[0] - rng[0], js[-1] - rng[0]) in [(int(a), int(b)) for a, b in d.clusters] and len(js) == js[-1] - js[0] + 1, "one cluster is fitted")
        gap = lambda a, b: h.ite(at < xs[rng[0] + int(a)], xs[rng[0] + int(a)] - at, h.ite(at > xs[rng[0] + int(b)], at - xs[rng[0] + int(b)], 0.0))
        mine = gap(js[0] - rng[0], js[-1] - rng[0])
        h.prove(h.andb(*[mine <= gap(a, b) for a, b in d.clusters]), "the cluster is the nearest one")
        val = c.y_cluster if c.baseline is None else c.y_cluster - c.baseline.value(c.r_cluster)
        h.prove_eq(list(val), [ys[j] - sub for j in js], "known peaks and baseline are taken into account")
        h.prove(h.exact(list(c.error_cluster), [es[j] for j in js]), "with the uncertainties of the points")
        h.prove((got is not None) == found, "the peak found, or None")
        if found:
            h.prove(got.owner().tag == "new" and h.exact(list(got.pars), new), "the peak found, or None")
        added = found and add is not False
    target = e.extracted.model if done else e.initial_peaks
    h.prove(sorted(map(str, tags(target))) == sorted([str(i) for i in range(npk)] + (["new"] if added else [])), "the peak is added to those known, unless not wanted")
    pos = [p.pars[0] for p in target]
    h.prove(h.andb(*[a <= b for a, b in zip(pos[:-1], pos[1:])]), "the peaks are sorted")
    h.prove(h.exact([list(p.pars) for p in ps], pars), "known peaks are not modified")
    if done:
        h.prove(len(e.initial_peaks) == 0, "initial peaks are left alone")
    h.prove(h.exact(list(e.x), xs) and h.exact(list(e.y), ys) and h.exact(list(e.effective_dy), es) and h.exact(list(base.pars), [c0]) and (e.extracted is None) == (not done), "the data are not modified")


def adding(h):
    """add_peaks to what is there."""
    Peaks, MC = h.cls("peaks.base", "Peaks"), h.cls("modelcluster", "ModelCluster")
    e = h.cls(*h.choice("class", [("peakextraction", "PeakExtraction"), ("pdfpeakextraction", "PDFPeakExtraction")]))()
    k, m = h.p["have"], h.p["new"]
    mk = lambda t, n: [actualize(h, block(h, t + str(i), False), [h.real("%sx%d" % (t, i)), h.real("%sh%d" % (t, i))]) for i in range(n)]
    ps, qs = mk("a", k or 0), mk("b", m)
    rec = [list(p.pars) for p in ps + qs]
    for a, b in zip(ps[:-1], ps[1:]):
        h.assume(a.pars[0] <= b.pars[0])
    if h.p["extracted"]:
        one = h.arr([1.0, 2.0, 3.0])
        y, er = h.array("y", 3), h.arr([0.1, 0.1, 0.1])
        yy = list(y)
        e.extracted = MC(Peaks(ps), None, one, y, er, None, h.cls("modelevaluators.aic", "AIC"), [block(h, "pf", False)])
    elif k is not None:
        e.initial_peaks = Peaks(ps)
    else:
        e.initial_peaks = None
    e.add_peaks(Peaks(qs))
    target = e.extracted.model if h.p["extracted"] else e.initial_peaks
    h.prove(isinstance(target, Peaks) and len(target) == len(ps) + len(qs) and all(any(t is p or t.owner() is p.owner() for t in target) for p in ps + qs), "the peaks are added to those known")
    pos = [p.pars[0] for p in target]
    h.prove(h.andb(*[a <= b for a, b in zip(pos[:-1], pos[1:])]), "the peaks are sorted")
    for t in target:
        i = [t.owner() is p.owner() for p in ps + qs].index(True)
        h.prove(h.exact(list(t.pars), rec[i]), "peaks are not modified")
    if h.p["extracted"]:
        h.prove(h.exact(list(e.extracted.y_data), yy), "the data are not modified")
        h.prove(e.initial_peaks is None, "initial peaks are left alone")


def scenarios(tier):
    q = tier == "quick"
    out = []

    def one(name, shape, w=3, **k):
        out.append(("search-" + name, "single", dict(k, shape=SHAPES[shape] if isinstance(shape, str) else shape), {"weight": w, "max_validate": 60}))
    for sh in ["two", "three", "valley", "left", "one", "four"] + ([] if q else ["wide", "long"]):
        one(sh, sh, create=[1, 2], maxq=2)
    one("range", "wide", rng=[(0, 5), (1, 8), (3, 6), (1, 5)], create=[1, 2], initial=1)
    one("initial", "two", initial=2, create=[1])
    one("initial-three", "three", initial=1, create=[1])
    one("any", 3, w=8, initial=1, create=[1])
    if not q:
        one("any4", 4, w=12, create=[1])
    G = [(), (0,), (1,), (2,), (3,), (4,), (5,)]
    for sh in ("two", "three", "valley") + (() if q else ("four", "wide")):
        one("nested-" + sh, sh, w=6, grow=G if q else G + [(0, 1), (1, 2), (2, 3), (0, 3), (1, 4)], maxq=2, nested=True, create=[1] if q else [1, 2], initial=1 if sh == "two" else 0)
    one("coarse", "four", cres=2.5, create=[1])
    one("fine", "two", cres=0.5, create=[1])

    def ext(name, w=3, **k):
        out.append(("extract-" + name, "extract", k, {"weight": w, "max_validate": 60}))
    O = [(0, False), (1, False), ("ripples", False), (0, True)]
    ext("plain", qmax=False, peaks=2, owners=O, nyquist=True)
    ext("plain-off", qmax=False, peaks=1, owners=O, initial=1)
    ext("ripples", qmax=True, peaks=2, owners=O, supersample=True, initial=1)
    ext("ripples-scale", qmax=True, peaks=1, owners=O, scale=True)
    ext("nyquist", qmax=True, peaks=2, owners=O[:2], nyquist=True, w=6, rng=[(1, 4)])
    ext("nyquist-static", qmax=True, peaks=2, owners=O[2:], nyquist=True, w=6, rng=[None])
    ext("nyquist-scale", qmax=True, peaks=1, owners=O[:1], nyquist=True, scale=True, supersample=True, w=6)
    ext("nyquist-three", qmax=True, peaks=3, owners=O[:1], nyquist=True, w=6, rng=[None])
    for i, (a, b, c, d) in enumerate(itertools.product([False, True], [False, True], [False, True], [False, True])):
        if not (c and not b) and not (d and not c):
            out.append(("fit%d" % i, "fitting", {"single": a, "qmax": b, "nyquist": c, "scale": d, "initial": 2}, {"max_validate": 60}))
    out.append(("fit-none", "fitting", {"single": False, "qmax": True, "nyquist": True, "initial": 0}, {"max_validate": 60}))
    for done in (False, True):
        t = "-extracted" if done else ""
        for sh in ("two", "one", "wide") if q else ("two", "one", "wide", "four", "long"):
            out.append(("estimate-%s%s" % (sh, t), "estimate", {"shape": SHAPES[sh], "extracted": done, "peaks": 1 if sh != "one" else 2, "rng": [(0, 5), (1, 5)] if sh == "two" else [(0, len(SHAPES[sh]))]}, {"weight": 2, "max_validate": 60}))
        for k in (0, 1, 2) + (() if done else (None,)):
            for m in (0, 1, 2):
                out.append(("add%s-%d%s" % (k, m, t), "adding", {"have": k, "new": m, "extracted": done}, {}))
    return out
