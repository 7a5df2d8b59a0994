"""Parameter formats."""
from checks.funcs import *  # noqa: F401,F403

FUNCTIONS = ["basefunction.BaseFunction.transform_parameters", "peaks.gaussian.Gaussian._transform_parametersraw",
             "peaks.gaussianoverr.GaussianOverR._transform_parametersraw", "baselines.*._transform_parametersraw",
             "peaks.base.PeakFunction.actualize", "baselines.base.BaselineFunction.actualize", "modelparts.ModelParts.transform"]
BOUNDS = ("all real positions, areas, maximum widths W > 0 and widths (0, W]; internal width angles within 16 (quick) / 100 (thorough) half "
          "turns; curves compared at an arbitrary coordinate; the points of zero width are excluded")
FORMATS = ["internal", "pwa", "mu_sigma_area"]


def curve(h, kind, f, part, x):
    return part.value(x)


def doc(h, kind, pos, w, area, x):
    sigma = w / (2 * h.sqrt(2 * h.ln2))
    v = area / (sigma * h.sqrt(2 * h.pi)) * h.exp(-(x - pos) * (x - pos) / (2 * sigma * sigma))
    return v / abs(x) if kind == "gaussianoverr" else v


def given(h, fmt, pos, w, area):
    if fmt == "pwa":
        return [pos, w, area]
    return [pos, w / (2 * h.sqrt(2 * h.ln2)), area]


def widths(h):
    W = h.real("W", pos=True)
    w = h.real("w", pos=True)
    if h.p.get("top"):
        w = W
    else:
        h.assume(w < W)
    h.hint_sqrt(w)
    return W, w


def external(h):
    """Formats with explicit widths."""
    kind = h.p["kind"]
    W, w = widths(h)
    f = peakfn(h, kind, W)
    pos, area = h.real("pos"), h.real("area", nonneg=True)
    a, b = h.p["a"], h.p["b"]
    src = given(h, a, pos, w, area)
    arr = h.arr(src)
    keep = list(arr)
    out = f.transform_parameters(arr, a, b)
    h.prove_eq(h.arr(keep), arr, "conversion leaves the given parameters unchanged")
    h.prove(len(out) == 3, "three parameters")
    if b != "internal":
        h.prove_eq(out, h.arr(given(h, b, pos, w, area)), "conversion between explicit formats is FWHM = 2 sqrt(2 ln 2) sigma")
    else:
        h.prove_eq(out[0], pos, "position and area survive")
        h.prove_eq(out[2], area, "position and area survive")
        h.prove(h.andb(h.le(-h.pi / 2, out[1]), h.le(out[1], h.pi / 2)), "internal angle within a half turn")
        for c in ("pwa", "mu_sigma_area"):
            back = f.transform_parameters(out, "internal", c)
            h.prove_eq(back, h.arr(given(h, c, pos, w, area)), "there and back again changes nothing")
        again = f.transform_parameters(out, "internal", "internal")
        h.prove_eq(again, out, "converted parameters are canonical")
    back = f.transform_parameters(out, b, a)
    h.prove_eq(back, h.arr(src), "there and back again changes nothing")


def made(h):
    """The peak has the documented curve whichever format it was made from."""
    kind = h.p["kind"]
    W, w = widths(h)
    f = peakfn(h, kind, W)
    pos, area = h.real("pos"), h.real("area", nonneg=True)
    x = gengrid(h, kind, 1, "x")[0]
    fmt = h.p["fmt"]
    p = f.actualize(given(h, fmt, pos, w, area), in_format=fmt)
    h.prove_eq(p.value(x), doc(h, kind, pos, w, area, x), "the curve does not depend on the format")


def canonical(h):
    kind = h.p["kind"]
    W = h.real("W", pos=True)
    f = peakfn(h, kind, W)
    pars = widthpars(h, turns=h.p["turns"])
    x = gengrid(h, kind, 1, "x")[0]
    arr = h.arr(pars)
    keep = list(arr)
    c = f.transform_parameters(arr, "internal", "internal")
    h.prove_eq(h.arr(keep), arr, "conversion leaves the given parameters unchanged")
    h.prove(c[2] >= 0, "canonical area is not negative")
    h.prove(h.andb(h.le(-h.pi / 2, c[1]), h.le(c[1], h.pi / 2)), "canonical angle within a half turn")
    h.prove_eq(c[0], pars[0], "position unchanged")
    h.prove_eq(h.sin(c[1]), h.sin(pars[1]), "canonical angle gives the same width")
    before = oracle(h, kind, pars, W, x)
    h.prove_eq(actualize(h, f, list(c)).value(x), before, "canonical form keeps the curve")
    m = h.cls("peaks.base", "Peaks")([actualize(h, f, pars)])
    m.transform()
    h.prove_eq(m[0].pars, c, "models are rewritten part by part")
    w = h.sqrt(W * W * (h.sin(pars[1]) + 1) / 2)
    p = f.transform_parameters(arr, "internal", "pwa")
    h.prove_eq(p, h.arr([pars[0], w, abs(pars[2])]), "internal to position, FWHM, area")
    s = f.transform_parameters(arr, "internal", "mu_sigma_area")
    h.prove_eq(s, h.arr([pars[0], w / (2 * h.sqrt(2 * h.ln2)), abs(pars[2])]), "internal to mean, sigma, area")
    d = f.transform_parameters(arr, "internal")
    h.prove_eq(d, p, "the default output format is position, width, area")
    q = f.actualize(arr)
    h.prove_eq(q.value(x), before, "the default input format is internal")
    q = f.actualize(arr, in_format="internal")
    h.prove_eq(q.value(x), before, "made from internal parameters")


def toowide(h):
    kind = h.p["kind"]
    W = h.real("W", pos=True)
    w = h.real("w")
    h.assume(w > W)
    f = peakfn(h, kind, W)
    pos, area = h.real("pos"), h.real("area", nonneg=True)
    E = h.cls("srmiseerrors", "SrMiseTransformationError")
    for fmt in ("pwa", "mu_sigma_area"):
        for b in FORMATS:
            if b == fmt:
                continue
            r = h.raises(lambda: f.transform_parameters(h.arr(given(h, fmt, pos, w, area)), fmt, b), E)
            h.prove(r is not None, "too wide a peak is refused")
    h.prove(h.raises(lambda: f.actualize([pos, w, area], in_format="pwa"), E) is not None, "too wide a peak is refused")
    h.prove(h.raises(lambda: peakfn(h, kind, h.real("V", hi=0)), ValueError) == "ValueError", "the maximum width must be positive")


def unknown(h):
    kind = h.p["kind"]
    W = h.real("W", pos=True) if isgauss(kind) else None
    f = peakfn(h, kind, W)
    pars = h.arr([h.real("p%d" % i) for i in range(f.npars)])
    good = FORMATS if isgauss(kind) else ["internal"]
    for bad in ["", "Internal", "pwb", "fwhm"] + ([] if isgauss(kind) else ["pwa"]):
        for g in good + ["default_input", "default_output"]:
            h.prove(h.raises(lambda: f.transform_parameters(pars, bad, g), ValueError) is not None, "unknown format names are refused")
            h.prove(h.raises(lambda: f.transform_parameters(pars, g, bad), ValueError) is not None, "unknown format names are refused")


def baseline(h):
    kind = h.p["kind"]
    f = peakfn(h, kind)
    pars = genpars(h, kind)
    x = h.real("x")
    arr = h.arr(pars)
    keep = list(arr)
    c = f.transform_parameters(arr, "internal", "internal")
    h.prove_eq(h.arr(keep), arr, "conversion leaves the given parameters unchanged")
    for ins in (None, "default_input", "default_output", "internal"):
        for outs in (None, "default_input", "default_output", "internal"):
            h.prove_eq(f.transform_parameters(arr, ins, outs), c, "there is one format")
    if kind == "nano":
        h.prove(h.andb(c[0] >= 0, c[1] >= 0), "canonical scale and radius are not negative")
        h.prove_eq(c, h.arr([abs(pars[0]), abs(pars[1])]), "scale and radius keep their sizes")
    else:
        h.prove_eq(c, arr, "the one format is kept")
    h.prove_eq(f.actualize(arr).value(x), oracle(h, kind, pars, None, x), "canonical form keeps the curve")
    m = h.cls("modelparts", "ModelParts")([actualize(h, f, pars)])
    m.transform("internal", "pwa")
    h.prove_eq(m[0].pars, arr, "formats a part does not know are ignored")
    m.transform("internal", "internal")
    h.prove_eq(m[0].pars, c, "models are rewritten part by part")


def mixed(h):
    """Models of several kinds convert the parts that know the format."""
    W, w = widths(h)
    f, g = peakfn(h, "gaussian", W), peakfn(h, "poly1")
    pos, area = h.real("pos"), h.real("area", nonneg=True)
    c = h.reals("c", 2)
    m = h.cls("modelparts", "ModelParts")([actualize(h, g, c), actualize(h, f, [pos, w, area])])
    m.transform("pwa", "mu_sigma_area")
    h.prove_eq(m[0].pars, h.arr(c), "formats a part does not know are ignored")
    h.prove_eq(m[1].pars, h.arr(given(h, "mu_sigma_area", pos, w, area)), "formats a part knows are applied")


def integers(h):
    """Integers are numbers too."""
    kind = h.p["kind"]
    if isgauss(kind):
        W = h.real("W", lo=3.0)
        f = peakfn(h, kind, W)
        h.hint_sqrt(2)
        src = [4, 2, 3]
        for fmt in ("pwa",):
            out = f.transform_parameters(src, fmt, "internal")
            h.prove_eq(f.transform_parameters(out, "internal", fmt), h.arr([4.0, 2.0, 3.0]), "integer parameters convert exactly")
        out = f.transform_parameters([4, 1, 3], "mu_sigma_area", "pwa")
        h.prove_eq(out[1], 2 * h.sqrt(2 * h.ln2), "integer parameters convert exactly")
        p = f.actualize(src, in_format="pwa")
    else:
        f = peakfn(h, kind)
        p = f.actualize(list(range(1, f.npars + 1)))
    new = h.reals("n", f.npars)
    p.update(h.arr(new))
    h.prove_eq(p.pars, h.arr(new), "parameters given as integers can take any value")
    cls = h.cls("peaks.base", "Peak") if isgauss(kind) else h.cls("baselines.base", "Baseline")
    p = cls(f, list(range(1, f.npars + 1)))
    p.update(h.arr(new))
    h.prove_eq(p.pars, h.arr(new), "parameters given as integers can take any value")


def scenarios(tier):
    q = tier == "quick"
    out = []
    for k in ["gaussian", "gaussianoverr"]:
        for a in FORMATS[1:]:
            for b in FORMATS:
                for top in (False, True):
                    if a != b:
                        out.append(("convert-%s-%s-%s%s" % (k, a, b, "-top" if top else ""), "external", {"kind": k, "a": a, "b": b, "top": top}, {}))
            out.append(("made-%s-%s" % (k, a), "made", {"kind": k, "fmt": a}, {}))
        out.append(("canonical-" + k, "canonical", {"kind": k, "turns": 16 if q else 100}, {"weight": 5}))
        out.append(("toowide-" + k, "toowide", {"kind": k}, {}))
    for k in ["gaussian", "gaussianoverr", "nano", "poly2", "poly-1", "const2"]:
        out.append(("unknown-" + k, "unknown", {"kind": k}, {}))
        if not isgauss(k):
            out.append(("baseline-" + k, "baseline", {"kind": k}, {}))
        if k != "poly-1":
            out.append(("integers-" + k, "integers", {"kind": k}, {}))
    out.append(("mixed", "mixed", {}, {}))
    return out
