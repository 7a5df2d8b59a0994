"""Extraction variables: setting, defaults, active range."""
import itertools

from checks.funcs import *  # noqa: F401,F403

FUNCTIONS = ["peakextraction.PeakExtraction.setdata/setvars/defaultvars/getrangeslice/clear/clearcalc/add_peaks", "pdfpeakextraction.PDFPeakExtraction.setdata/setvars/defaultvars/loadpdf/clear"]
BOUNDS = ("data of 3 points (active range: at most 5 quick / 6 thorough) with all real values and uncertainties; every combination of given and missing variables listed in the scenarios, all real values "
          "of those; requests for the defaults of every single variable and of pairs; find_qmax is a stub that returns any number or fails")
VARS = ("effective_dy", "rng", "pf", "initial_peaks", "baseline", "cres", "error_method")
PVARS = VARS + ("qmax", "supersample", "nyquist", "scale")


def data(h, n=3):
    x = [h.real("x%d" % i, lo=-20, hi=20) for i in range(n)]
    for a, b in zip(x[:-1], x[1:]):
        h.assume(a < b)
    return x, [h.real("y%d" % i) for i in range(n)]


def dy(h, how, n=3):
    return None if how is None else [h.real("dy%d" % i) for i in range(n)] if how == "any" else [0.5] * n


def given(h, k, x, y):
    """A value for variable k (None: leave it unset) and what it has to become."""
    n = len(x)
    if k == "effective_dy":
        how = h.choice(k, ["none", "scalar", "array"])
        if how == "none":
            return None
        if how == "scalar":
            v = h.real("ed", pos=True)
            return v, [v] * n
        v = h.arr([h.real("ed%d" % i) for i in range(n)])
        return v, v
    if k == "rng":
        how = h.choice(k, ["none", "both", "left", "right", "empty", "tuple"])
        if how == "none":
            return None
        a, b = h.real("lo"), h.real("hi")
        h.assume(h.andb(x[0] <= a, a < b, b <= x[-1]))
        g = {"both": [a, b], "left": [a, None], "right": [None, b], "empty": [None, None], "tuple": (None, b)}[how]
        return g, [x[0] if g[0] is None else g[0], x[-1] if g[1] is None else g[1]]
    if k == "pf":
        v = [peakfn(h, "gaussian", 0.7)]
    elif k == "initial_peaks":
        f = peakfn(h, "gaussian", 0.7)
        v = h.cls("peaks.base", "Peaks")([actualize(h, f, [1.0, 0.25, h.real("area")])])
    elif k == "error_method":
        v = h.cls("modelevaluators.aicc", "AICc")
    elif k == "cres":
        v = h.real("cres", nonneg=True)
    elif k == "baseline":
        v = actualize(h, peakfn(h, "poly1"), [h.real("b1"), h.real("b0")])
    if not h.choice("give-" + k, [False, True]):
        return None
    return v, v


def check(h, pe, k, want, label):
    got = getattr(pe, k)
    if k in ("effective_dy", "rng"):
        h.prove(len(got) == len(want), label)
        h.prove_eq(list(got), list(want), label)
    elif k == "cres" or k in ("qmax", "supersample"):
        h.prove_eq(got, want, label)
    else:
        h.prove(got is want, label)


def isdefault(h, pe, k, x, y, d, label, pdf=None):
    """pdf: what the PDF extraction's own defaults have to be computed from."""
    n = len(x)
    got = getattr(pe, k)
    if k == "effective_dy":
        h.prove(len(got) == n, label)
        if d is not None and bool(h.andb(*[v > 0 for v in d])):
            h.prove_eq(list(got), list(d), label)
        else:
            for g in got:
                h.prove_eq(g, got[0], label)
            h.prove(h.andb(*[got[0] * 20 >= a - b for a in y for b in y]), label)
            h.prove(h.orb(*[h.eq(got[0] * 20, a - b) for a in y for b in y]), label)
    elif k == "rng":
        h.prove_eq(list(got), [x[0], x[-1]], label)
    elif k == "pf":
        h.prove(len(got) == 1 and type(got[0]) is h.cls("peaks.gaussianoverr", "GaussianOverR"), label)
        h.prove_eq(got[0].maxwidth, x[-1] - x[0] if pdf is None else 0.7, label)
    elif k == "initial_peaks":
        h.prove(type(got) is h.cls("peaks.base", "Peaks") and len(got) == 0, label)
    elif k == "error_method":
        h.prove(got is h.cls("modelevaluators.aic", "AIC"), label)
    elif k == "baseline":
        h.prove(type(got) is h.cls("baselines.base", "Baseline") and got.npars() == 0, label)
        h.prove_eq(got.value(h.arr(x)), h.arr([0.0] * n), label)
    elif k == "cres":
        if pdf is not None and bool(pe.qmax > 0):
            h.prove_eq(got * pe.qmax, h.pi, label)
        else:
            h.prove_eq(got * n, 4 * (x[-1] - x[0]), label)
    elif k == "qmax":
        h.prove_eq(got, pdf["reported"] if pdf["reported"] is not None else pdf["fromdata"] if pdf["fromdata"] is not None else 0.0, label)
    elif k == "nyquist":
        h.prove(h.eq(h.orb(got), pe.qmax > 0), label)
    elif k == "scale":
        h.prove(not bool(got), label)
    elif k == "supersample":
        h.prove_eq(got, 4.0, label)


def extraction(h, x, y, d):
    pe = h.cls("peakextraction", "PeakExtraction")()
    pe.setdata(h.arr(x), h.arr(y), None, None if d is None else h.arr(d))
    return pe


def setting(h):
    x, y = data(h)
    d = dy(h, h.choice("dy", h.p["dy"]))
    pe = extraction(h, x, y, d)
    want = {}
    for k in h.p["vars"]:
        v = given(h, k, x, y)
        if v is not None:
            want[k] = v
    copies = {k: list(v[0]) for k, v in want.items() if k == "rng"}
    if h.choice("how", ["setvars", "one by one", "attributes"][:h.p["how"]]) == "setvars":
        pe.setvars(**{k: v[0] for k, v in want.items()})
    elif h.p["how"] > 1:
        for k, v in want.items():
            pe.setvars(quiet=True, **{k: v[0]})
        pe.defaultvars()
    for k in VARS:
        if k in want:
            check(h, pe, k, want[k][1], "%s is what was given" % k)
        else:
            isdefault(h, pe, k, x, y, d, "%s unset takes its default" % k)
    for k, v in copies.items():
        h.prove_eq([0.0 if a is None else a for a in want[k][0]], [0.0 if a is None else a for a in v], "what was given is not modified")
        h.prove([a is None for a in want[k][0]] == [a is None for a in v], "what was given is not modified")
    h.prove_eq(pe.x, h.arr(x), "the data stay")
    h.prove_eq(pe.y, h.arr(y), "the data stay")
    h.prove_eq(pe.dx, h.arr([0.0] * len(x)), "missing uncertainties are zero")
    h.prove_eq(pe.dy, h.arr([0.0] * len(x) if d is None else d), "missing uncertainties are zero")
    h.prove(pe.extracted is None and pe.extraction_type is None, "setting variables extracts nothing")


def request(h):
    """Requested defaults replace present values, the others stay."""
    x, y = data(h)
    d = dy(h, h.choice("dy", h.p["dy"]))
    pe = extraction(h, x, y, d)
    a = h.arr([h.real("ed%d" % i) for i in range(3)])
    f = peakfn(h, "gaussian", 0.7)
    lo, hi = h.real("lo"), h.real("hi")
    h.assume(h.andb(x[0] <= lo, lo < hi, hi <= x[-1]))
    want = dict(effective_dy=a, rng=[lo, hi], pf=[f], initial_peaks=h.cls("peaks.base", "Peaks")([actualize(h, f, [1.0, 0.25, 0.5])]),
                baseline=actualize(h, peakfn(h, "poly0"), [h.real("b0")]), cres=h.real("cres", nonneg=True), error_method=h.cls("modelevaluators.aicc", "AICc"))
    if h.choice("rng-attr", [False, True]):
        pe.setvars(**want)
    else:
        for k, v in want.items():
            setattr(pe, k, v)
    ask = h.choice("ask", h.p["ask"])
    pe.defaultvars(*ask)
    for k in VARS:
        if k in ask:
            isdefault(h, pe, k, x, y, d, "a requested default replaces the present value (%s)" % k)
        else:
            check(h, pe, k, want[k], "defaults not asked for replace nothing (%s)" % k)


def names(h):
    x, y = data(h)
    cls = h.choice("class", ["PeakExtraction", "PDFPeakExtraction"])
    stubqmax(h, None)
    if cls == "PeakExtraction":
        pe = h.cls("peakextraction", cls)(["mine"] if h.choice("new", [False, True]) else [])
    else:
        pe = h.cls("pdfpeakextraction", cls)()
    pe.setdata(h.arr(x), h.arr(y))
    ok = set(pe.extractvars)
    h.prove(ok == set(VARS if cls == "PeakExtraction" else PVARS) | ({"mine"} if "mine" in ok else set()), "the extraction variables are the documented ones")
    v = h.real("v", lo=1, hi=2)
    name = h.choice("name", ["x", "y", "dy", "extracted", "mine", "Cres", "qmax", "scale", "dg", "extractvars"])
    if name == "dg" and cls == "PDFPeakExtraction":
        return
    before = getattr(pe, name, "missing")
    got = h.raises(lambda: pe.setvars(**{name: v}), ValueError)
    if name in ok:
        h.prove(got is None, "extraction variables can be set")
        h.prove_eq(getattr(pe, name), v, "extraction variables can be set")
    else:
        h.prove(got is not None, "unknown names are refused")
        h.prove(getattr(pe, name, "missing") is before, "unknown names are refused")
    for k in VARS:
        if cls == "PeakExtraction":
            h.prove(h.raises(lambda: h.cls("peakextraction", cls)(["new", k]), ValueError) is not None, "conflicting new variables are refused")


def lengths(h):
    n = [h.choice("n%d" % i, [0, 1, 2, 3] if i < 2 else [None, 0, 1, 2, 3]) for i in range(4)]
    cls = h.choice("class", ["PeakExtraction", "PDFPeakExtraction"])
    if cls == "PDFPeakExtraction":
        stubqmax(h, None)
    mk = [None if m is None else [h.real("v%d_%d" % (i, j)) for j in range(m)] for i, m in enumerate(n)]
    kind = h.choice("kind", ["list", "array"])
    args = [None if m is None else h.arr(m) if kind == "array" and m else m for m in mk]
    pe = h.cls("peakextraction" if cls == "PeakExtraction" else "pdfpeakextraction", cls)()
    bad = any(m is not None and m != n[0] for m in n)
    got = h.raises(lambda: pe.setdata(*args), ValueError)
    h.prove((got is not None) == bad, "data of unequal lengths are refused")
    if not bad:
        for k, m in zip(("x", "y", "dx", "dy"), mk):
            v = getattr(pe, k)
            h.prove(len(v) == n[0], "missing uncertainties are zero")
            h.prove_eq(list(v), [0.0] * n[0] if m is None else m, "the data are those given")
            h.prove(all(v is not a for a in args), "the data are copies")


def active(h):
    n = h.p["n"]
    x, y = data(h, n)
    pe = extraction(h, x, y, None)
    lo, hi = h.real("lo"), h.real("hi")
    h.assume(lo < hi)
    h.assume(h.andb(lo <= x[-1], hi >= x[0]))
    given = h.choice("given", ["both", "left", "right", "none"])
    g = {"both": [lo, hi], "left": [lo, None], "right": [None, hi], "none": None}[given]
    if g is None:
        pe.defaultvars()
    else:
        pe.setvars(rng=g)
    s = pe.getrangeslice()
    idx = list(range(n))[s]
    for i in range(n):
        c = h.andb(*([x[i] >= lo] if given in ("both", "left") else []) + ([x[i] <= hi] if given in ("both", "right") else []))
        h.prove(h.eq(h.orb(i in idx), c), "the active range has the points within the limits, and no others")


def estimated(h):
    """A baseline function is fitted to the points of the active range."""
    x, y = data(h)
    pe = extraction(h, x, y, None)
    BF = h.cls("baselines.base", "BaselineFunction")
    seen = []
    how = h.choice("how", ["ok", "not implemented", "error"])

    class B(BF):
        def __init__(self):
            BF.__init__(self, {"a": 0, "b": 1}, ["internal", "odd"], {"default_input": "odd", "default_output": "odd"}, {})

        def estimate_parameters(self, r, yy):
            seen.append((r, yy))
            if how == "ok":
                return h.arr([h.real("a"), h.real("b")])
            if how == "not implemented":
                raise NotImplementedError("no")
            raise h.cls("srmiseerrors", "SrMiseEstimationError")("no")

        def _transform_parametersraw(self, pars, in_format, out_format):
            return h.arr(list(pars)) if in_format == out_format else h.arr(list(pars)[::-1])

        def _valueraw(self, pars, r):
            return pars[0] + pars[1] * r
    f = B()
    lo, hi = h.real("lo"), h.real("hi")
    h.assume(h.andb(x[0] <= lo, lo < hi, hi <= x[-1]))
    want = dict(baseline=f, rng=[lo, hi]) if h.choice("order", [0, 1]) else dict(rng=[lo, hi], baseline=f)
    pe.setvars(**want)
    h.prove(len(seen) == 1, "the baseline is estimated once")
    r, yy = seen[0]
    idx = [i for i in range(3) if bool(h.andb(x[i] >= lo, x[i] <= hi))]
    h.prove(len(r) == len(idx), "the baseline is estimated from the active range")
    h.prove_eq(list(r), [x[i] for i in idx], "the baseline is estimated from the active range")
    h.prove_eq(list(yy), [y[i] for i in idx], "the baseline is estimated from the active range")
    if how == "ok":
        b = pe.baseline
        h.prove(type(b) is h.cls("baselines.base", "Baseline") and b.owner() is f, "the baseline has the estimated parameters")
        a, c = (h.ctx.inputs["a"], h.ctx.inputs["b"]) if h.mode == "sym" else (h.values["a"], h.values["b"])
        h.prove_eq(b.pars, h.arr([a, c]), "the baseline has the estimated parameters")
        pe.defaultvars()
        h.prove(pe.baseline is b and len(seen) == 1, "the baseline is estimated once")
    else:
        isdefault(h, pe, "baseline", x, y, None, "without an estimate the baseline is zero")
    pe.defaultvars("baseline")
    isdefault(h, pe, "baseline", x, y, None, "a requested default replaces the present value (baseline)")


def stubqmax(h, v):
    calls = []

    def find_qmax(r, y, showgraphs=False):
        calls.append((r, y))
        if v is None:
            raise IndexError("too few points")
        return v, 0.1
    h.stub(h.mod("pdfpeakextraction").find_qmax, find_qmax)
    return calls


def pdfgiven(h, k):
    if k == "qmax":
        how = h.choice(k, ["none", "number", "automatic"])
        return None if how == "none" else h.real("q", nonneg=True) if how == "number" else "automatic"
    if k in ("nyquist", "scale"):
        return h.choice(k, [None, True, False])
    if k == "supersample":
        return h.choice(k, [None, 0]) if False else (None if not h.choice(k, [0, 1]) else h.real("ss"))
    if k == "cres":
        return None if not h.choice(k, [0, 1]) else h.real("cr", nonneg=True)
    if k == "dg":
        return None if not h.choice(k, [0, 1]) else h.real("dgv", pos=True)
    if k == "effective_dy":
        return None if not h.choice(k, [0, 1]) else h.real("edy", pos=True)
    if k == "pf":
        return None if not h.choice(k, [0, 1]) else [peakfn(h, "gaussian", 0.7)]


def pdf(h):
    x, y = data(h)
    how = h.choice("qmax-data", h.p["fromdata"])
    fd = h.real("fd", nonneg=True) if how else None
    calls = stubqmax(h, fd)
    pe = h.cls("pdfpeakextraction", "PDFPeakExtraction")()
    rep, d = None, None
    load = h.choice("load", h.p["load"])
    if load == "pdf":
        ds = h.cls("pdfdataset", "PDFDataSet")("a")
        d = dy(h, "any")
        ds.robs, ds.Gobs, ds.drobs, ds.dGobs = list(x), list(y), [0.0] * 3, list(d)
        rep = h.real("rep", nonneg=True)
        h.assume(rep > 0)
        ds.qmax = rep
        pe.loadpdf(ds)
    elif load == "again":
        pe.setdata(h.arr([1.0, 2.0]), h.arr([1.0, 2.0]))
        pe.setvars(quiet=True, qmax=h.real("oldq", nonneg=True))
        del calls[:]
        pe.clear()
        h.prove(all(getattr(pe, k) is None for k in PVARS), "clear() unsets everything")
        pe.setdata(h.arr(x), h.arr(y))
    else:
        pe.setdata(h.arr(x), h.arr(y))
    h.prove(len(calls) == 1, "qmax is determined from the data")
    h.prove_eq(list(calls[0][0]) + list(calls[0][1]), x + y, "qmax is determined from the data")
    h.prove((pe.qmax_fromdata is None) == (fd is None), "qmax is determined from the data")
    src = dict(reported=rep, fromdata=fd)
    kw = {}
    for k in h.p["vars"]:
        v = pdfgiven(h, k)
        if v is not None:
            kw[k] = v
    asked = dict(kw)
    bad = ("dg" in kw and "effective_dy" in kw) or (kw.get("qmax") == "automatic" and fd is None) if True else None
    err = (ValueError, h.cls("srmiseerrors", "SrMiseQmaxError"))
    if not bad and "supersample" in kw:
        bad = bool(kw["supersample"] < 1)
    if bad:
        h.prove(h.raises(lambda: pe.setvars(**kw), *err) is not None, "bad values are refused")
        h.prove(all(getattr(pe, k) is None for k in PVARS), "bad values are refused")
        return
    pe.setvars(**kw)
    ed = asked.pop("dg", asked.pop("effective_dy", None))
    if "effective_dy" in asked:
        asked.pop("effective_dy")
    if ed is not None:
        check(h, pe, "effective_dy", [ed] * 3, "dg is the uncertainty used")
        h.prove(not hasattr(pe, "dg"), "dg is an alias")
    else:
        isdefault(h, pe, "effective_dy", x, y, d, "effective_dy unset takes its default", src)
    for k in PVARS:
        if k == "effective_dy":
            continue
        if k in asked:
            check(h, pe, k, fd if k == "qmax" and isinstance(asked[k], str) else asked[k], "%s is what was given" % k)
        else:
            isdefault(h, pe, k, x, y, d, "%s unset takes its default" % k, src)
    ask = h.choice("ask", h.p["ask"])
    if ask:
        before = {k: getattr(pe, k) for k in PVARS}
        pe.defaultvars(*ask)
        names = ["effective_dy" if k == "dg" else k for k in ask]
        for k in PVARS:
            if k in names:
                isdefault(h, pe, k, x, y, d, "a requested default replaces the present value (%s)" % k, src)
            else:
                h.prove(getattr(pe, k) is before[k], "defaults not asked for replace nothing (%s)" % k)


def unreported(h):
    """A PDF without qmax."""
    x, y = data(h)
    fd = h.real("fd", pos=True)
    stubqmax(h, fd)
    ds = h.cls("pdfdataset", "PDFDataSet")("a")
    ds.robs, ds.Gobs, ds.drobs, ds.dGobs = list(x), list(y), [0.0] * 3, [0.0] * 3
    pe = h.cls("pdfpeakextraction", "PDFPeakExtraction")()
    pe.loadpdf(ds)
    h.prove_eq(pe.qmax_fromdata, fd, "qmax is determined from the data")
    pe.setvars(qmax="automatic")
    h.prove_eq(pe.qmax, fd, "automatic qmax is the one determined from the data")
    pe.defaultvars("qmax")
    h.prove_eq(pe.qmax, fd, "a qmax that is not reported is determined from the data")


def new_data(h):
    """Nothing determined from previous data is used for new data."""
    x, y = data(h)
    pe = h.cls("pdfpeakextraction", "PDFPeakExtraction")()
    state = []

    def find_qmax(r, yy, showgraphs=False):
        state.append(1)
        if (len(state) == 2) and not second:
            raise ValueError("no")
        return h.real("fd%d" % len(state), nonneg=True), 0.1
    second = h.choice("second", [True, False])
    h.stub(h.mod("pdfpeakextraction").find_qmax, find_qmax)
    pe.setdata(h.arr([1.0, 2.0, 4.0]), h.arr([1.0, 2.0, 5.0]))
    pe.setdata(h.arr(x), h.arr(y))
    if second:
        pe.setvars(qmax="automatic")
        h.prove_eq(pe.qmax, h.ctx.inputs["fd2"] if h.mode == "sym" else h.values["fd2"], "automatic qmax is the one determined from the data")
    else:
        h.prove(h.raises(lambda: pe.setvars(qmax="automatic"), h.cls("srmiseerrors", "SrMiseQmaxError")) is not None, "qmax cannot be automatic if it is not determined")
    pe.defaultvars()
    for k in VARS:
        isdefault(h, pe, k, x, y, None, "%s unset takes its default" % k, {})


def adding(h):
    """Peaks added before extraction are initial peaks, sorted by position."""
    x, y = data(h)
    pe = extraction(h, x, y, None)
    f = peakfn(h, "gaussian", 0.7)
    P = h.cls("peaks.base", "Peaks")
    mk = lambda t: actualize(h, f, [h.real(t, lo=-3, hi=3), 0.25, h.real("h" + t)])  # noqa: E731
    old = [mk("a%d" % i) for i in range(h.choice("old", [0, 1, 2]))]
    start = P(list(old)) if old else h.choice("start", [None, 0])
    if start == 0:
        start = P()
    if start is not None:
        pe.initial_peaks = start
    new = [mk("b%d" % i) for i in range(h.choice("new", [1, 2]))]
    given = P(list(new)) if h.choice("group", [True, False]) else list(new)
    pe.add_peaks(given)
    got = pe.initial_peaks
    h.prove(type(got) is P and len(got) == len(old) + len(new), "added peaks become initial peaks")
    h.prove(all(sum(1 for g in got if g is p) == 1 for p in old + new), "added peaks become initial peaks")
    for p, q in zip(got[:-1], got[1:]):
        h.prove(p.pars[0] <= q.pars[0], "initial peaks are sorted")
    h.prove(len(given) == len(new) and all(a is b for a, b in zip(given, new)), "the peaks given are not reordered")


def scenarios(tier):
    q = tier == "quick"
    out = []
    rest = ["pf", "initial_peaks", "error_method", "cres", "baseline"]
    for k, (vs, how, d) in enumerate([(["effective_dy", "rng"], 2, [None, "any", "ok"]), (rest, 2, [None]), (["rng", "cres", "baseline"], 2, ["ok"]), (["effective_dy", "pf", "baseline"], 2, ["any"])]
                                     + ([] if q else [(["effective_dy", "rng", "cres", "pf", "baseline"], 2, ["any", None])])):
        out.append(("set%d" % k, "setting", {"vars": vs, "how": how, "dy": d}, {"weight": 2}))
    asks = [[k] for k in VARS] + [[]] + ([["rng", "baseline"], ["cres", "pf"], list(VARS)] if q else [list(c) for c in itertools.combinations(VARS, 2)] + [list(VARS)])
    out.append(("request", "request", {"ask": asks, "dy": [None, "ok", "any"]}, {"weight": 2}))
    out += [("names", "names", {}, {}), ("lengths", "lengths", {}, {"max_validate": 100}), ("estimated", "estimated", {}, {}), ("newdata", "new_data", {}, {}),
            ("unreported", "unreported", {}, {}), ("adding", "adding", {}, {})]
    for n in (2, 4, 5) if q else (2, 3, 4, 5, 6):
        out.append(("range%d" % n, "active", {"n": n}, {}))
    L = ["data", "pdf", "again"]
    out.append(("pdf-qmax", "pdf", {"vars": ["qmax", "nyquist", "cres"], "load": L, "fromdata": [True, False], "ask": [[], ["qmax"], ["cres"], ["nyquist", "qmax"]]}, {"weight": 3, "max_validate": 200}))
    out.append(("pdf-dg", "pdf", {"vars": ["dg", "effective_dy", "supersample"], "load": L, "fromdata": [True], "ask": [[], ["dg"], ["effective_dy"], ["supersample"]]}, {"weight": 2, "max_validate": 200}))
    out.append(("pdf-rest", "pdf", {"vars": ["scale", "supersample", "pf", "nyquist"], "load": L, "fromdata": [True, False], "ask": [[], ["scale", "pf"], ["rng"], list(PVARS)]}, {"weight": 3, "max_validate": 200}))
    if not q:
        out.append(("pdf-more", "pdf", {"vars": ["qmax", "scale", "nyquist", "cres", "supersample"], "load": L, "fromdata": [True, False], "ask": [[]] + [[k] for k in PVARS]}, {"weight": 8, "max_validate": 200}))
    return out
