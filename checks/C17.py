"""Saving and reading back: functions, parts, clusters, extractions, traces, summaries."""
from checks.funcs import *  # noqa: F401,F403

FUNCTIONS = ["basefunction.BaseFunction.writestr/factory/safefunctionlist", "modelparts.ModelPart.writestr", "peaks.base.Peak.factory", "baselines.base.Baseline.factory", "modelcluster.ModelCluster.writestr/factory",
             "peakextraction.PeakExtraction.write/writestr/read/readstr", "pdfpeakextraction.PDFPeakExtraction.writemetadata/readmetadata/writepwastr", "srmiselog.TracePeaks.maketrace/writestr/write/read/readstr",
             "baselines.fromsequence.FromSequence.__init__/readxy/xyrepr"]
BOUNDS = ("all values of the numbers printed (any sign where stated in the scenario, positive elsewhere); models of at most 2 peaks over at most 3 functions, data of at most 3 points, 3 points in sequences; "
          "set and unset variables as listed in the scenarios, one or all at a time; corrupt text: every section and field removed, every line of numbers shortened, lengthened or spoiled")
META = ("filename", "nyquist", "qmax", "qmax_reportedbypdf", "qmax_fromdata", "scale", "supersample")


def near(h, a, b):
    """b is a as printed with six digits."""
    return h.andb(b - a <= abs(a) * 1e-5, a - b <= abs(a) * 1e-5)


def nearall(h, a, b, label):
    h.prove(len(a) == len(b), label + ": number of values")
    for u, v in zip(a, b):
        h.prove(near(h, u, v), label + " to the printed precision")


def splines(h):
    """Stands for the interpolating spline; records its points."""
    m = h.mod("baselines.fromsequence")

    class Spline:
        def __init__(self, x, y):
            self.x, self.y = x, y

        def __call__(self, r):
            return r * 0.0
    h.setattr(m.spi, "InterpolatedUnivariateSpline", Spline)


def function(h, kind, tag=""):
    if kind == "ripples":
        return h.cls("peaks.terminationripples", "TerminationRipples")(function(h, "gaussian", tag), h.real("qmax" + tag, pos=True), h.real("ext" + tag, pos=True), h.real("ss" + tag, pos=True))
    if kind == "ripples-concrete":
        return h.cls("peaks.terminationripples", "TerminationRipples")(peakfn(h, "gaussianoverr", 0.3), 20.0)
    if kind == "sequence":
        splines(h)
        return h.cls("baselines.fromsequence", "FromSequence")(h.arr([0.5, h.real("sx" + tag, lo=0.75, hi=1.25), 2.0]), h.arr([1.0, h.real("sy" + tag), 0.25]))
    if kind in ("gaussian", "gaussianoverr"):
        return peakfn(h, kind, h.real("W" + tag, pos=True))
    return peakfn(h, kind)


def samefunction(h, f, g, label):
    h.prove(type(g) is type(f), label + ": same kind")
    h.prove(set(f.metadict) == set(g.metadict) and f.npars == g.npars and f.parameterdict == g.parameterdict, label + ": same description")
    for k in f.metadict:
        h.prove(h.exact(f.metadict[k][0], g.metadict[k][0]), "%s: %s exactly" % (label, k))
    h.prove((f.base is None) == (g.base is None), label + ": has a base")
    if f.base is not None:
        samefunction(h, f.base, g.base, label + " (base)")


def samepart(h, a, b, label, owner=True):
    h.prove(type(a) is type(b), label + ": same class")
    h.prove(h.exact(a.pars, b.pars), label + ": exactly the same parameters")
    h.prove([bool(i) for i in a.free] == [bool(i) for i in b.free], label + ": same free flags")
    h.prove(bool(a.removable) == bool(b.removable) and bool(a.static_owner) == bool(b.static_owner), label + ": same flags")
    if owner:
        samefunction(h, a.owner(), b.owner(), label + " function")


def s_function(h):
    h.text()
    f = function(h, h.p["kind"])
    B = h.cls("basefunction", "BaseFunction")
    fs = B.safefunctionlist([f] + ([peakfn(h, "gaussian", 0.7)] if h.p["kind"] == "ripples" else []))
    out = []
    for t in [g.writestr(fs) for g in fs]:
        out.append(B.factory(t, out))
    h.prove(len(out) == len(fs), "one function per text")
    for a, b in zip(fs, out):
        samefunction(h, a, b, "function read back")
    for a, b in zip(fs, out):
        if a.base is not None:
            h.prove(b.base is out[fs.index(a.base)], "the base is the function of that index")


def part(h, f, tag, sign=False, flags=True):
    n = f.npars
    pk = isinstance(f, h.cls("peaks.base", "PeakFunction"))
    cls = h.cls("peaks.base", "Peak") if pk else h.cls("baselines.base", "Baseline")
    pars = [h.real("p%d%s" % (i, tag), pos=not sign) for i in range(n)]
    free = h.choice("free" + tag, [[True] * n, [i % 2 == 0 for i in range(n)], [False] * n]) if flags else [i % 2 == 1 for i in range(n)]
    rem, st = (h.choice("flags" + tag, [(True, False), (False, True), (True, True), (False, False)])) if flags else (True, False)
    return cls(f, h.arr(pars), free, rem, st)


def s_part(h):
    h.text()
    if h.p["kind"] == "sequence":
        splines(h)
    f = peakfn(h, "gaussianoverr", 0.5) if h.p["kind"] == "gaussianoverr" else function(h, h.p["kind"]) if h.p["kind"] in ("sequence", "ripples-concrete") else peakfn(h, h.p["kind"], 0.7)
    others = [peakfn(h, "gaussian", 0.2)]
    fs = others + [f]
    a = part(h, f, "", sign=True)
    t = a.writestr(fs)
    b = type(a).factory(t, fs)
    h.prove(b.owner() is f, "the owner is the function of that index")
    samepart(h, a, b, "part read back", owner=False)
    h.prove(h.raises(lambda: a.writestr(others), ValueError) is not None, "refuses a list without its function")


def cluster(h, mode, tag="", n=3, variant=None):
    """A model cluster with what the mode asks for."""
    f = peakfn(h, "gaussian", 0.7)
    g = function(h, "ripples-concrete") if "ripples" in mode else peakfn(h, "gaussianoverr", 0.3)
    pb = h.cls("peaks.base", "Peaks")
    bl = None if "nobase" in mode else part(h, peakfn(h, "poly0"), "b" + tag, flags=False)
    model = pb([]) if "empty" in mode else pb([part(h, f, "f" + tag, flags=False), part(h, g, "g" + tag, flags=False)])
    ev = {"aic": h.cls("modelevaluators.aic", "AIC"), "aicc": h.cls("modelevaluators.aicc", "AICc")}.get(mode.split("-")[0])
    pf = None if "nopf" in mode else [g, f] if "pf2" in mode else [f]
    x = [h.real("x%d%s" % (i, tag), pos=True) for i in range(n)]
    y = [h.real("y%d%s" % (i, tag), pos=True) for i in range(n)]
    e = [h.real("e%d%s" % (i, tag), pos=True) for i in range(n)]
    for a, b in zip(x, x[1:]):
        h.assume(a < b)
    sls = [None, slice(1, n), slice(0, h.np.int64(n - 1), 1)]
    sl = None if "slice" not in mode else h.choice("slice" + tag, sls) if variant is None else sls[variant % 3]
    # whether a cluster is worth fitting follows from its data (C11)
    h.assume(y[1] > e[1] + (0 if bl is None else bl.pars[0]) + 1)
    return h.cls("modelcluster", "ModelCluster")(model, bl, h.arr(x), h.arr(y), h.arr(e), sl, ev, pf)


def samecluster(h, a, b, label):
    h.prove(a.error_method is b.error_method, label + ": same evaluator")
    n = len(a.r_data)
    h.prove(a.slice.indices(n) == b.slice.indices(n), label + ": same slice")
    h.prove((a.peak_funcs is None) == (b.peak_funcs is None), label + ": peak functions unset if they were")
    if a.peak_funcs is not None:
        h.prove(len(a.peak_funcs) == len(b.peak_funcs), label + ": as many peak functions")
        for f, g in zip(a.peak_funcs, b.peak_funcs):
            samefunction(h, f, g, label + " peak function")
    h.prove((a.baseline is None) == (b.baseline is None), label + ": baseline unset if it was")
    if a.baseline is not None:
        samepart(h, a.baseline, b.baseline, label + " baseline")
    h.prove(len(a.model) == len(b.model), label + ": as many peaks")
    for p, q in zip(a.model, b.model):
        samepart(h, p, q, label + " peak")
    for u, v, t in ((a.r_data, b.r_data, "r"), (a.y_data, b.y_data, "y"), (a.y_error, b.y_error, "dy")):
        nearall(h, u, v, label + " " + t)


def s_cluster(h):
    h.text()
    a = cluster(h, h.p["mode"])
    MC = h.cls("modelcluster", "ModelCluster")
    t = a.writestr()
    b = MC.factory(t)
    samecluster(h, a, b, "cluster")


def s_clusterlists(h):
    """With the functions given instead of written."""
    h.text()
    a = cluster(h, h.p["mode"])
    B = h.cls("basefunction", "BaseFunction")
    pfs = B.safefunctionlist([peakfn(h, "gaussian", 0.1)] + list(a.peak_funcs) + [p.owner() for p in a.model])
    bls = B.safefunctionlist([peakfn(h, "poly2")] + ([a.baseline.owner()] if a.baseline is not None else []))
    t = a.writestr(pfbaselist=pfs, blfbaselist=bls)
    b = h.cls("modelcluster", "ModelCluster").factory(t, pfbaselist=pfs, blfbaselist=bls)
    samecluster(h, a, b, "cluster")
    for p, q in zip(a.model, b.model):
        h.prove(p.owner() is q.owner(), "peaks refer to the given functions")


def extraction(h, what):
    """An extraction with the listed variables set."""
    pdf = what.get("pdf", True)
    e = (h.cls("pdfpeakextraction", "PDFPeakExtraction") if pdf else h.cls("peakextraction", "PeakExtraction"))()
    f, g = peakfn(h, "gaussian", 0.7), peakfn(h, "gaussianoverr", 0.3)
    lin = peakfn(h, "poly1")
    n = what.get("n", 2)
    for m in what.get("data", ()):
        setattr(e, m, h.arr([h.real("%s%d" % (m, i), pos=True) for i in range(n)]))
    s = what.get("set", ())
    sign = "sign" in what
    k = h.choice("variant", list(range(6))) if "rng" in s else 0
    if "pf" in s:
        e.pf = [g, f] if "ripples" not in s else [function(h, "ripples-concrete"), f]
    if "emptypeaks" in s:
        e.initial_peaks = h.cls("peaks.base", "Peaks")([])
    if "initial_peaks" in s:
        e.initial_peaks = h.cls("peaks.base", "Peaks")([part(h, f, "i", sign=sign, flags=False), part(h, g, "j", flags=False)])
    if "baseline" in s:
        e.baseline = part(h, lin, "b", flags=False)
    if "baselinefunction" in s:
        e.baseline = lin
    if "cres" in s:
        e.cres = h.real("cres", pos=k > 0, nonneg=True)
    if "error_method" in s:
        e.error_method = h.cls("modelevaluators.aic", "AIC") if k % 2 else h.cls("modelevaluators.aicc", "AICc")
    if "rng" in s:
        e.rng = [[h.real("lo"), h.real("hi", pos=True)], [None, h.real("hi2")], (h.real("lo3"), 2)][k % 3]
    if "meta" in s:
        e.filename = ["/a b/c=d #e.gr", "x'y\"z", "ü"][k % 3]
        e.nyquist = k % 2 == 0
        e.scale = k // 2 % 2 == 0
        for m in ("qmax", "qmax_reportedbypdf", "qmax_fromdata", "supersample"):
            setattr(e, m, h.real(m, pos=True))
    for m in what.get("meta", ()):
        setattr(e, m, h.real(m) if m not in ("nyquist", "scale", "filename") else True if m != "filename" else "name")
    if "extracted" in what:
        mc = cluster(h, what["extracted"], "c", what.get("mcn", 2), k)
        e.extracted = mc
        e.extraction_type = "extract" if k < 3 else "fit"
        if "pf" in s:
            mc.peak_funcs = list(e.pf)
        if "shared" in what:
            e.baseline = mc.baseline
            e.x, e.y, e.effective_dy = mc.r_data, mc.y_data, mc.y_error
    return e


def sameextraction(h, a, b):
    for k in ("x", "y", "dx", "dy", "effective_dy"):
        u, v = getattr(a, k), getattr(b, k)
        h.prove((u is None) == (v is None), "%s unset if it was" % k)
        if u is not None:
            nearall(h, u, v, k)
    h.prove((a.pf is None) == (b.pf is None), "pf unset if it was")
    if a.pf is not None:
        h.prove(len(a.pf) == len(b.pf), "as many peak functions")
        for f, g in zip(a.pf, b.pf):
            samefunction(h, f, g, "peak function")
    h.prove((a.initial_peaks is None) == (b.initial_peaks is None), "initial peaks unset if they were")
    if a.initial_peaks is not None:
        h.prove(len(a.initial_peaks) == len(b.initial_peaks), "as many initial peaks")
        for p, q in zip(a.initial_peaks, b.initial_peaks):
            samepart(h, p, q, "initial peak")
            if a.pf is not None and p.owner() in a.pf:
                h.prove(q.owner() is b.pf[a.pf.index(p.owner())], "initial peaks share the extraction's functions")
    h.prove((a.baseline is None) == (b.baseline is None), "baseline unset if it was")
    BF = h.cls("basefunction", "BaseFunction")
    if isinstance(a.baseline, BF):
        samefunction(h, a.baseline, b.baseline, "baseline function")
    elif a.baseline is not None:
        samepart(h, a.baseline, b.baseline, "baseline")
    h.prove((a.cres is None) == (b.cres is None), "cres unset if it was")
    if a.cres is not None:
        h.prove(h.exact(a.cres, b.cres), "cres exactly")
    h.prove(a.error_method is b.error_method, "same evaluator")
    h.prove((a.rng is None) == (b.rng is None), "range unset if it was")
    if a.rng is not None:
        h.prove(len(a.rng) == len(b.rng), "range has two ends")
        for u, v in zip(a.rng, b.rng):
            h.prove(u is v is None or (u is not None and v is not None and h.exact(u, v)), "range exactly")
    if hasattr(a, "supersample"):
        for k in META:
            u, v = getattr(a, k), getattr(b, k)
            h.prove((u is None) == (v is None), "%s unset if it was" % k)
            if u is not None:
                h.prove(type(u) is type(v) or not isinstance(u, (str, bool)), "%s of the same type" % k)
                h.prove(h.exact(u, v), "%s exactly" % k)
    h.prove(a.extraction_type == b.extraction_type, "same type of extraction")
    h.prove((a.extracted is None) == (b.extracted is None), "no result if there was none")
    if a.extracted is not None:
        samecluster(h, a.extracted, b.extracted, "result")
        if a.pf is not None:
            for p, q in zip(a.pf, b.pf):
                for m, o in zip(a.extracted.model, b.extracted.model):
                    if m.owner() is p:
                        h.prove(o.owner() is q, "extracted peaks share the extraction's functions")


def s_extraction(h):
    h.text()
    a = extraction(h, h.p["what"])
    b = type(a)()
    used = h.p["what"].get("used")
    if used:            # whatever it held before is gone
        b.setdata(h.arr([1.0, 2.0]), h.arr([1.0, 3.0])) if not hasattr(b, "supersample") else h.cls("peakextraction", "PeakExtraction").setdata(b, h.arr([1.0, 2.0]), h.arr([1.0, 3.0]))
        b.cres, b.rng, b.pf, b.effective_dy, b.extraction_type = 3.0, [1.0, 2.0], [peakfn(h, "gaussian", 0.1)], h.arr([1.0, 1.0]), "extract"
        b.error_method = h.cls("modelevaluators.aic", "AIC")
        for k in META:
            if hasattr(b, k):
                setattr(b, k, 5.0)
    if h.p["what"].get("file"):
        p = h.path("saved.srmise")
        a.write(p)
        r = b.read(p)
        h.prove(r is b, "read returns the extraction")
    else:
        b.readstr(a.writestr())
    sameextraction(h, a, b)


def s_trace(h):
    h.text()
    T = h.cls("srmiselog", "TracePeaks")
    p = h.path("trace")
    t = T(filebase=p, filter=["True"])
    m1 = cluster(h, "aic-slice")
    m2 = h.cls("modelcluster", "ModelCluster")(m1)
    m2.model = h.cls("peaks.base", "Peaks")([part(h, m1.model[0].owner(), "z", flags=False)])
    for i in range(h.choice("depth", [0, 2])):
        t.pushr()
    k = h.choice("earlier", [0, 1])
    t.counter = k
    depth = t.recursion
    t.emit(m1, m2)
    h.prove(t.counter == k + 1, "each trace has its own number")
    r = T(filebase=p).read("%s_%d" % (p, k))
    h.prove(r["counter"] == k and r["recursion"] == depth, "number and level of the trace")
    h.prove(list(r["clusters"]) == [m1.slice, m2.slice], "clusters of the trace")
    mc = r["mc"]
    want = list(m1.model) + list(m2.model)
    h.prove(len(mc.model) == len(want), "all peaks of the clusters traced")
    for q in want:
        h.prove(h.orb(*[h.exact(q.pars, o.pars) for o in mc.model]), "every peak is in the trace exactly")
    n = len(m1.r_data)
    h.prove(mc.slice.indices(n) == (0, n, 1), "the trace covers all data")
    nearall(h, m1.y_data, mc.y_data, "y")
    h.prove(len(m1.model) == 2 and len(m2.model) == 1, "tracing leaves the clusters alone")


def s_sequence(h):
    """Two-column files."""
    splines(h)
    h.text()
    n = h.p["n"]
    x = [h.real("x%d" % i, pos=i > 0 or not h.p["sign"]) for i in range(n)]
    y = [h.real("y%d" % i, pos=i > 0 or not h.p["sign"]) for i in range(n)]
    p = h.path("seq.dat")
    fmt = {"repr": lambda v: repr(float(v)), "%.10g": lambda v: "%.10g" % v}[h.p["fmt"]]
    with open(p, "w") as f:
        f.write(h.p["header"])
        f.write("\n".join("%s%s %s" % (h.p.get("pad", ""), fmt(u), fmt(v)) for u, v in zip(x, y)) + h.p.get("tail", "\n"))
    FS = h.cls("baselines.fromsequence", "FromSequence")
    f = FS(file=p) if h.choice("how", ["file", "position"]) == "file" else FS(p)
    if h.p["fmt"] == "repr":
        h.prove(h.exact(f.spline.x, x) if len(f.spline.x) == n else False, "x column")
        h.prove(h.exact(f.spline.y, y) if len(f.spline.y) == n else False, "y column")
    else:
        nearall(h, x, f.spline.x, "x column")
        nearall(h, y, f.spline.y, "y column")
    h.prove(h.andb(h.eq(f.minx, f.spline.x[0]), h.eq(f.maxx, f.spline.x[-1])), "safe range")


def s_summary(h):
    """The peaks of a summary, in natural units."""
    h.text()
    e = extraction(h, dict(set=("pf", "cres", "error_method", "rng", "meta"), extracted="aicc-pf2", shared=1))
    for p in e.extracted.model:
        p.pars[1] = 0.5
    q = h.cls("modelevaluators.aicc", "AICc")()
    q.stat = h.real("stat")
    h.setattr(e.extracted, "quality", lambda *a: q)
    text = e.writepwastr(h.p["comments"])
    lines = text.split("\n")
    i = lines.index("#L position fwhm area")
    rows = [ln for ln in lines[i + 1:] if ln]
    h.prove(len(rows) == len(e.extracted.model), "one line per peak")
    for ln, p in zip(rows, e.extracted.model):
        v = ln.split()
        o = p.owner()
        want = o.transform_parameters(p.pars, "internal", "pwa")
        for s, w in zip(v[:3], [want[o.parameterdict[k]] for k in ("position", "width", "area")]):
            h.prove(h.exact(parsenumber(h, s), w), "position, width and area of each peak")
    for ln in h.p["comments"].splitlines():
        h.prove("# " + ln in lines, "the comments are included")
    b = lines.index("## Baseline")
    h.prove(h.exact(parsenumber(h, [ln for ln in lines[b + 1:] if not ln.startswith("#")][0].split()[0]), e.extracted.baseline.pars[0]), "parameters of the baseline")
    e.extracted = None
    h.prove(h.raises(lambda: e.writepwastr(""), h.cls("srmiseerrors", "SrMiseError")) is not None, "no summary without result")


def parsenumber(h, s):
    return h.np.array([s]).astype(float)[0] if h.mode == "real" else h.world.builtins["float"](s)


def spoil(text, how):
    """Corrupt versions of a saved extraction."""
    lines = text.split("\n")
    k, arg = how
    if k == "drop":            # the section's heading is missing
        i = [j for j, ln in enumerate(lines) if ln.lstrip("# ").startswith(arg) and ln.startswith("#")][0]
        del lines[i]
    elif k == "field":         # the line of a field is missing
        i = [j for j, ln in enumerate(lines) if ln.startswith(arg + "=")][0]
        del lines[i]
    elif k == "value":         # a field without a value that can be read
        i = [j for j, ln in enumerate(lines) if ln.startswith(arg[0] + "=")][0]
        lines[i] = "%s=%s" % arg
    elif k == "row":           # a line of numbers
        head, which, new = arg
        i = [j for j, ln in enumerate(lines) if ln.startswith(head)][0] + which
        w = lines[i].split()
        lines[i] = " ".join(w[:-1] if new == "short" else w + ["1"] if new == "long" else w[:-1] + [new])
    elif k == "cut":
        lines = lines[:int(len(lines) * arg)]
    return "\n".join(lines)


CORRUPT = [("drop", s) for s in ("BaselineFunctions", "PeakFunctions", "BaselineObject", "InitialPeaks", "SrMiseMetadata", "Metadata", "start data", "Results", "ModelCluster", "ModelPeaks")] + \
    [("field", s) for s in ("pf", "cres", "ModelEvaluator", "Range", "filename", "nyquist", "qmax", "qmax_reportedbypdf", "qmax_fromdata", "scale", "supersample", "extraction_type", "peak_funcs", "slice",
                            "function", "module", "owner", "pars", "maxwidth")] + \
    [("value", s) for s in (("pf", "[9]"), ("pf", "[0"), ("cres", "abc"), ("ModelEvaluator", "Nothing"), ("Range", "[1.0,"), ("owner", "7"), ("pars", "[1.0]"), ("pars", "[1.0, x]"), ("free", "[True]"), ("free", "oops!"),
                            ("base", "5"), ("function", "'NoSuch'"), ("maxwidth", "-1"), ("maxwidth", "("), ("peak_funcs", "[8]"), ("slice", "slice("), ("extraction_type", "'"), ("qmax", "1 2"), ("scale", "Tru"))] + \
    [("row", s) for s in (("#L x", 1, "short"), ("#L x", 2, "long"), ("#L x", 1, "abc"), ("#L x", 2, "1.0.0"), ("#L r", 1, "short"), ("#L r", 2, "long"), ("#L r", 1, "abc"))] + \
    [("cut", 0.0), ("cut", 0.5), ("cut", 0.8)]


def s_corrupt(h):
    """One flaw in otherwise proper text."""
    h.text()
    a = extraction(h, dict(data=("x", "y", "dx", "dy", "effective_dy"), set=("pf", "initial_peaks", "baseline", "cres", "meta1", "rng1"), extracted="aic-pf2"))
    a.error_method = h.cls("modelevaluators.aic", "AIC")
    a.rng = [0.5, 2.5]
    text = a.writestr()
    how = h.choice("flaw", [CORRUPT[i] for i in h.p["flaws"]])
    bad = spoil(text, how)
    DF, FE = h.cls("srmiseerrors", "SrMiseDataFormatError"), h.cls("srmiseerrors", "SrMiseFileError")
    b = type(a)()
    if h.choice("file", [False, True]):
        p = h.path("bad.srmise")
        with open(p, "w") as f:
            f.write(bad)
        h.prove(h.raises(lambda: b.read(p), FE) is not None, "a corrupt file is refused")
    else:
        h.prove(h.raises(lambda: b.readstr(bad), DF) is not None, "corrupt text is refused")
    good = type(a)()
    good.readstr(text)
    h.prove(len(good.initial_peaks) == 2, "the same text without the flaw is read")


def scenarios(tier):
    T = tier == "thorough"
    out = []
    for k in ("gaussian", "gaussianoverr", "poly0", "poly1", "poly3", "nano", "ripples", "sequence"):
        out.append(("function-" + k, "s_function", dict(kind=k)))
    for k in ("gaussian", "gaussianoverr", "poly1", "nano", "sequence", "ripples-concrete") + (("poly3",) if T else ()):
        out.append(("part-" + k, "s_part", dict(kind=k)))
    for m in ("aic", "aicc-pf2-slice", "none-empty", "aicc-nobase", "aicc-nopf", "aicc-ripples-nobase-nopf-empty", "aic-ripples-pf2"):
        out.append(("cluster-" + m, "s_cluster", dict(mode=m)))
    for m in ("aic-pf2-slice", "aicc-nobase"):
        out.append(("cluster-lists-" + m, "s_clusterlists", dict(mode=m)))
    every = ("pf", "initial_peaks", "baseline", "cres", "error_method", "rng", "meta")
    ex = [("unset", dict()), ("unset-base", dict(pdf=False)), ("unset-used", dict(used=1)), ("unset-base-used", dict(pdf=False, used=1)), ("all", dict(set=every, data=("x", "y", "dx", "dy", "effective_dy"), extracted="aicc-slice")),
          ("all-base", dict(pdf=False, set=every[:-1], data=("x", "y", "dx", "dy", "effective_dy"))), ("file", dict(file=1, set=("pf", "cres", "rng"), data=("x", "y", "effective_dy"), extracted="aic-nobase")),
          ("nodata-edy", dict(data=("effective_dy",))), ("edy", dict(data=("x", "y", "effective_dy"))), ("dy", dict(data=("x", "y", "dy"))), ("dx", dict(data=("x", "y", "dx"))), ("nodata-result", dict(n=0, data=("x", "y"))),
          ("function", dict(set=("baselinefunction", "pf", "emptypeaks"))), ("sign", dict(set=("initial_peaks", "pf"), sign=1)), ("ripples", dict(set=("pf", "ripples", "initial_peaks"), extracted="aicc-nobase")),
          ("shared", dict(set=("pf",), extracted="aicc-slice", shared=1)), ("empty-result", dict(set=("pf", "baseline"), extracted="aicc-empty-nobase"))]
    for k in META:
        ex.append(("meta-" + k, dict(meta=(k,))))
    for n, w in ex:
        out.append(("extraction-" + n, "s_extraction", dict(what=w)))
    out.append(("trace", "s_trace", {}))
    for i, (hd, pad, tail) in enumerate((("", "", "\n"), ("# a b\n# 1 2\n", "", ""), ("#L x y\n", "  ", "\n\n"))):
        out.append(("sequence-%d" % i, "s_sequence", dict(n=3, sign=True, header=hd, pad=pad, tail=tail, fmt="repr")))
    out.append(("sequence-g", "s_sequence", dict(n=2, sign=False, header="", fmt="%.10g")))
    out.append(("summary", "s_summary", dict(comments="one\ntwo # three")))
    k = 12
    for i in range(0, len(CORRUPT), k):
        out.append(("corrupt-%d" % (i // k), "s_corrupt", dict(flaws=list(range(i, min(i + k, len(CORRUPT)))))))
    return [s + ({},) for s in out]
