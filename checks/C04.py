"""Values of parts and models."""
from checks.funcs import *  # noqa: F401,F403

FUNCTIONS = ["basefunction.BaseFunction.value", "modelparts.ModelParts.value/residual", "modelparts.ModelPart.value",
             "peaks.gaussian.Gaussian._valueraw/max", "peaks.gaussianoverr.GaussianOverR._valueraw/max",
             "baselines.polynomial.Polynomial._valueraw", "baselines.nanospherical.NanoSpherical._valueraw/_getdomain",
             "baselines.arbitrary.Arbitrary._valueraw"]
BOUNDS = ("grids of at most 3 (quick) / 4 (thorough) arbitrary real points, every contiguous range; all real parameters and "
          "maximum widths (peak width > 0, radius != 0, r != 0 for Gaussian/r); polynomials of degree -1..3 (quick) / 5; "
          "models of at most 3 parts.  FromSequence (a scipy spline) is outside")


def single(h):
    kind, n = h.p["kind"], h.p["n"]
    W = h.real("W", pos=True) if isgauss(kind) else None
    f = peakfn(h, kind, W)
    pars = genpars(h, kind)
    part = actualize(h, f, pars)
    r = gengrid(h, kind, n)
    s = h.choice("range", slices(n))
    before = list(r), list(part.pars)
    v = part.value(r, mkslice(s))
    h.prove(len(v) == n, "value has one entry per grid point")
    ins = inrange(s, n)
    for i in range(n):
        if i in ins:
            e = oracle(h, kind, pars, W, r[i])
            h.prove_eq(v[i], e, "value inside the range is the documented function")
        else:
            h.prove_eq(v[i], 0.0, "value outside the range is zero")
    h.observe("v", v[0])
    h.prove_eq(h.arr(before[0]), r, "evaluation leaves the grid unchanged")
    h.prove_eq(h.arr(before[1]), part.pars, "evaluation leaves the parameters unchanged")


def scalar(h):
    kind = h.p["kind"]
    W = h.real("W", pos=True) if isgauss(kind) else None
    f = peakfn(h, kind, W)
    pars = genpars(h, kind)
    part = actualize(h, f, pars)
    r = gengrid(h, kind, 1)
    h.prove_eq(part.value(r[0]), oracle(h, kind, pars, W, r[0]), "a single number is evaluated like a one-point grid")
    h.prove_eq(part.value(r)[0], oracle(h, kind, pars, W, r[0]), "a one-point grid is evaluated")


def names(h):
    """Coefficients and parameters carry their documented names."""
    d = h.p["d"]
    f = peakfn(h, "poly%d" % d)
    pars = genpars(h, "poly%d" % d)
    part = actualize(h, f, pars)
    x = h.real("x")
    t = 0.0
    for k in range(d + 1):
        t = t + part["a_%d" % k] * x ** k
    h.prove_eq(part.value(x), t, "coefficient a_k multiplies r**k")
    h.prove(len(part) == d + 1 and f.npars == d + 1, "a polynomial of degree d has d+1 parameters")


def gaussnames(h):
    kind = h.p["kind"]
    W = h.real("W", pos=True)
    f = peakfn(h, kind, W)
    pars = widthpars(h)
    part = actualize(h, f, pars)
    h.prove_eq(part["position"], pars[0], "parameters are named")
    h.prove_eq(part["width"], pars[1], "parameters are named")
    h.prove_eq(part["area"], pars[2], "parameters are named")


def gaussmax(h):
    """max() is the position and height of the peak's maximum."""
    kind = h.p["kind"]
    W = h.real("W", pos=True)
    f = peakfn(h, kind, W)
    pars = widthpars(h, turns=h.p["turns"])
    sg = h.sqrt(W * W * (h.sin(pars[1]) + 1) / 2) / (2 * h.sqrt(2 * h.ln2))
    if kind == "gaussianoverr":
        h.assume(pars[0] > 0)
        # rmax chosen, position follows (every peak with a maximum)
        if bool(pars[0] ** 2 <= 4 * sg ** 2):
            h.prove(h.raises(lambda: f.max(h.arr(pars)), ValueError) == "ValueError", "no maximum is reported as such")
            return
        m = f.max(h.arr(pars))
        h.prove_eq(m[0] * m[0] - pars[0] * m[0] + sg * sg, 0.0, "the maximum is a stationary point")
        h.prove(2 * m[0] >= pars[0], "the maximum is the outer stationary point")
        h.assume(m[0] > 0)
        h.prove_eq(m[1], oracle(h, kind, pars, W, m[0]), "the height is the value at the maximum")
    else:
        m = f.max(h.arr(pars))
        h.prove_eq(m[0], pars[0], "a Gaussian is highest at its position")
        h.prove_eq(m[1], oracle(h, kind, pars, W, m[0]), "the height is the value at the maximum")


def model(h):
    """Models sum their parts inside the range; residual = (observed - model)/uncertainty."""
    kinds, n = h.p["kinds"], h.p["n"]
    W = h.real("W", pos=True) if any(isgauss(k) for k in kinds) else None
    parts, allp = [], []
    for i, k in enumerate(kinds):
        pars = genpars(h, k, "_%d" % i)
        allp.append(pars)
        parts.append(actualize(h, peakfn(h, k, W), pars))
    cls = h.cls("peaks.base", "Peaks") if h.p.get("peaks") else h.cls("modelparts", "ModelParts")
    m = cls(parts)
    g = "gaussianoverr" if "gaussianoverr" in kinds else ("nano" if "nano" in kinds else "")
    r = gengrid(h, g, n)
    s = h.choice("range", slices(n))
    v = m.value(r, mkslice(s))
    ins = inrange(s, n)
    tot = []
    for i in range(n):
        t = 0.0
        if i in ins:
            for k, pars in zip(kinds, allp):
                t = t + oracle(h, k, pars, W, r[i])
        tot.append(t)
        h.prove_eq(v[i], t, "model value is the sum of its parts inside the range, zero outside")
    if kinds:
        h.prove_eq(m.value(r[0]), sum([oracle(h, k, pars, W, r[0]) for k, pars in zip(kinds, allp)], 0.0),
                   "a model is evaluated at a single number")
    y, e = h.array("y", n), h.array("e", n, pos=True)
    if not kinds:
        return
    free = m.unpack_freepars()
    res = m.residual(free, r, y, e, mkslice(s))
    h.prove(len(res) == len(ins), "residual has one entry per point of the range")
    for j, i in enumerate(ins):
        h.prove_eq(res[j], (y[i] - tot[i]) / e[i], "residual is (observed - model)/uncertainty")
    # with other values of the free parameters
    new = [h.real("n%d" % i) for i in range(len(free))]
    if not any(isgauss(k) or k == "nano" for k in kinds):
        res = m.residual(h.arr(new), r, y, e, mkslice(s))
        k0 = 0
        for j, i in enumerate(ins):
            t, k0 = 0.0, 0
            for k, pars in zip(kinds, allp):
                t = t + oracle(h, k, new[k0:k0 + len(pars)], W, r[i])
                k0 += len(pars)
            h.prove_eq(res[j], (y[i] - t) / e[i], "residual evaluates the model at the given parameters")


def owner(h):
    kind = h.p["kind"]
    W = h.real("W", pos=True) if isgauss(kind) else None
    f, g = peakfn(h, kind, W), peakfn(h, kind, W)
    part = actualize(h, f, genpars(h, kind))
    r = gengrid(h, kind, 1)
    h.prove(h.raises(lambda: g.value(part, r), ValueError) == "ValueError", "only the owner evaluates a part")
    h.prove(h.raises(lambda: g.jacobian(part, r), ValueError) == "ValueError", "only the owner evaluates a part")


def scenarios(tier):
    q = tier == "quick"
    N = 3 if q else 4
    out = []
    for k in ["gaussian", "gaussianoverr", "nano", "const2"] + ["poly%d" % d for d in range(-1, 4 if q else 6)]:
        out.append(("value-" + k, "single", {"kind": k, "n": N}, {"weight": 10, "max_validate": 60}))
        out.append(("scalar-" + k, "scalar", {"kind": k}, {}))
        out.append(("owner-" + k, "owner", {"kind": k}, {}))
    for d in range(-1, 4 if q else 6):
        out.append(("names-poly%d" % d, "names", {"d": d}, {}))
    for k in ["gaussian", "gaussianoverr"]:
        out.append(("names-" + k, "gaussnames", {"kind": k}, {}))
        out.append(("max-" + k, "gaussmax", {"kind": k, "turns": 1 if q else 3}, {}))
    mods = [["const2"], ["poly1", "const2"], ["gaussian", "poly1"], ["gaussianoverr", "gaussianoverr"],
            ["gaussian", "gaussianoverr", "poly0"], ["nano", "poly1"], ["gaussianoverr", "poly-1"]]
    for ks in mods:
        out.append(("model-" + "+".join(ks), "model", {"kinds": ks, "n": 2 if q else 3}, {"weight": 8, "max_validate": 60}))
    out.append(("model-peaks", "model", {"kinds": ["gaussian", "gaussianoverr"], "n": 2, "peaks": True}, {"weight": 8, "max_validate": 60}))
    out.append(("model-empty", "model", {"kinds": [], "n": 2}, {}))
    return out
