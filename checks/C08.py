"""Scaling peaks."""
import itertools

from checks.funcs import *  # noqa: F401,F403

FUNCTIONS = ["peaks.gaussian.Gaussian.scale_at", "peaks.gaussianoverr.GaussianOverR.scale_at", "peaks.base.Peak.scale_at",
             "peaks.base.Peaks.match_at"]
BOUNDS = ("one Gaussian or Gaussian/r peak with arbitrary real parameters (width angle within a quarter turn, area != 0, maximum at rmax > 0 for Gaussian/r), "
          "every coordinate and factor e^-20..e^20 outside a relative margin 1e-6 around the limits of feasibility, 4 (quick) / 8 sets of free parameters; groups of at most 3 peaks "
          "whose scaling succeeds, is refused or breaks down in every combination, independently at the first and second attempt (quick: all combinations up to 2 peaks, a subset for 3)")


def untouched(h, part, pars, free):
    h.prove_eq(part.pars, h.arr(pars), "a refused scaling leaves the peak as it was")
    h.prove([bool(x) for x in part.free] == list(free), "free flags unchanged")


def gauss(h):
    """Both widths are chosen, the factor follows; reaches every factor for which some width, within the maximum or not, exists."""
    kind = h.p["kind"]
    W, s1, s2 = h.real("W", pos=True), h.real("sigma", pos=True), h.real("newsigma", pos=True)
    d = h.real("d")                                         # distance from the maximum
    area = h.real("area")
    h.assume(area != 0)
    h.assume(d != 0)
    h.assume(s1 != s2)
    bool(area > 0)
    bool(d > 0)
    c8 = 8 * h.ln2
    h.assume(s1 * 2 * h.sqrt(2 * h.ln2) < W)
    f = peakfn(h, kind, W)
    top = h.real("top", pos=kind == "gaussianoverr")
    mu = top
    if kind == "gaussianoverr":
        h.assume(s1 < top)
        mu = (s1 * s1 + top * top) / top
        h.hint_sqrt((top * top - s1 * s1) / top)
    h.hint_sqrt(s1)
    h.hint_sqrt(s2)
    x = top + d
    if kind == "gaussianoverr":
        h.assume(x > 0)
    wid = h.p["case"] == "wide"
    if wid:                                                 # the new width is too large
        h.assume(s2 * 2 * h.sqrt(2 * h.ln2) > 1.000001 * W)
        if kind == "gaussianoverr":
            h.assume(s2 != top)
    elif h.p["case"] == "beyond":                           # the maximum would be left
        h.assume(s2 > top * 1.000001)
    else:
        h.assume(s2 * 2 * h.sqrt(2 * h.ln2) < 0.999999 * W)
        if kind == "gaussianoverr":
            h.assume(s2 < 0.999999 * top)
            h.hint_sqrt((top * top - s2 * s2) / top)
    t = d * d / (s1 * s1) / 2 - d * d / (s2 * s2) / 2
    h.assume(abs(t) <= 20)
    scale = h.exp(t)
    free = list(h.choice("free", h.p["frees"]))
    pars = [mu, h.arcsin(2 * s1 * s1 * c8 / (W * W) - 1), area]
    part = actualize(h, f, pars, free)
    before = part.value(x)
    m0 = f.max(h.arr(pars))
    res = part.scale_at(x, scale)
    if wid or h.p["case"] == "beyond":
        h.prove(not res, "peaks wider than the maximum width are not made")
    if not res:
        untouched(h, part, pars, free)
        if all(free):
            h.prove(h.p["case"] != "ok", "scaling is refused only when there is no peak with that value")
        return
    for i in range(3):
        if not free[i]:
            h.prove_eq(part.pars[i], pars[i], "fixed parameters stay")
    h.prove([bool(y) for y in part.free] == list(free), "free flags unchanged")
    h.prove_eq(part.value(x), before * scale, "the value at the point is multiplied by the factor")
    m1 = f.max(part.pars)
    h.prove_eq(m1[0], m0[0], "the maximum keeps its position")
    h.prove_eq(m1[1], m0[1], "the maximum keeps its height")


def toohigh(h):
    """Values no width gives: at or above the height of the maximum."""
    kind = h.p["kind"]
    W, s1 = h.real("W", pos=True), h.real("sigma", pos=True)
    d, area, top, e = h.real("d"), h.real("area", pos=True), h.real("top", pos=True), h.real("excess", lo=0.000001)
    h.assume(s1 * 2 * h.sqrt(2 * h.ln2) < W)
    h.assume(d != 0)
    f = peakfn(h, kind, W)
    mu = top
    if kind == "gaussianoverr":
        h.assume(s1 < top)
        mu = (s1 * s1 + top * top) / top
        h.hint_sqrt((top * top - s1 * s1) / top)
    h.hint_sqrt(s1)
    x = top + d
    t = d * d / (s1 * s1) / 2 * (1 + e)
    if kind == "gaussianoverr":
        h.assume(x > 0)
        bool(d > 0)
    scale = h.exp(t)
    free = list(h.choice("free", h.p["frees"]))
    pars = [mu, h.arcsin(2 * s1 * s1 * 8 * h.ln2 / (W * W) - 1), area]
    part = actualize(h, f, pars, free)
    h.prove(not part.scale_at(x, scale), "no peak with the same maximum is that high")
    untouched(h, part, pars, free)


def refused(h):
    kind = h.p["kind"]
    W = h.real("W", pos=True)
    f = peakfn(h, kind, W)
    pars = [h.real("pos"), h.real("ang"), h.real("area")]
    h.assume(h.sin(pars[1]) > -1)
    part = actualize(h, f, pars)
    x = h.real("x")
    s = h.real("s", hi=0)
    h.prove(not part.scale_at(x, s), "factors that are not positive are refused")
    untouched(h, part, pars, [True] * 3)
    E = h.cls("srmiseerrors", "SrMiseScalingError")
    h.prove(h.raises(lambda: f.scale_at(h.arr(pars), x, s), E) is not None, "factors that are not positive are refused")


def one(h):
    """Scaling by one and scaling a fully fixed peak change nothing."""
    kind = h.p["kind"]
    W = h.real("W", pos=True)
    f = peakfn(h, kind, W)
    pars = widthpars(h)
    x = h.real("x")
    part = actualize(h, f, pars)
    part.scale_at(x, 1.0)
    h.prove_eq(part.value(x + 1 if kind == "gaussian" else abs(x) + 1), oracle(h, kind, pars, W, x + 1 if kind == "gaussian" else abs(x) + 1),
               "scaling by one keeps the peak")
    part = actualize(h, f, pars, [False] * 3)
    h.prove(not part.scale_at(x, h.real("s")), "a peak without free parameters cannot be scaled")
    untouched(h, part, pars, [False] * 3)


def singular(h):
    """Peaks without area and the top of a peak never give non-numeric parameters."""
    kind, case = h.p["kind"], h.p["case"]
    W, s1 = h.real("W", pos=True), h.real("sigma", pos=True)
    h.assume(s1 * 2 * h.sqrt(2 * h.ln2) < W)
    f = peakfn(h, kind, W)
    top = h.real("top", pos=True)
    mu = top
    if kind == "gaussianoverr":
        h.assume(s1 < top)
        mu = (s1 * s1 + top * top) / top
        h.hint_sqrt((top * top - s1 * s1) / top)
    h.hint_sqrt(s1)
    pars = [mu, h.arcsin(2 * s1 * s1 * 8 * h.ln2 / (W * W) - 1), 0.0 if case == "noarea" else h.real("area", pos=True)]
    x = h.real("x", pos=True) if case == "noarea" else top if kind == "gaussianoverr" else mu
    s = h.real("s", lo=0.01, hi=100) if case == "top" else h.choice("s", [0.5, 2.0])
    h.assume(s != 1)
    part = actualize(h, f, pars)
    res = part.scale_at(x, s)
    for i in range(3):
        h.prove(not h.isnan(part.pars[i]) and not inf(part.pars[i]), "parameters stay numbers")
    if case == "top":
        h.prove(not res, "the top of a peak cannot be scaled")
    if not res:
        untouched(h, part, pars, [True] * 3)


def inf(x):
    import math
    return isinstance(x, float) and math.isinf(x)


def stub(h, plan):
    """Peaks (position, height) of constant value whose scaling follows a plan."""
    PF = h.cls("peaks.base", "PeakFunction")
    E = h.cls("srmiseerrors", "SrMiseScalingError")

    class Flat(PF):
        def __init__(self, k):
            PF.__init__(self, {"position": 0, "height": 1}, ["internal"],
                        {"default_input": "internal", "default_output": "internal"}, {})
            self.k, self.calls = k, 0

        def _transform_parametersraw(self, pars, in_format, out_format):
            return h.arr(list(pars))

        def _valueraw(self, pars, r):
            return pars[1] + r * 0.0

        def scale_at(self, pars, x, scale):
            c = plan[self.k][min(self.calls, 1)]
            self.calls += 1
            if scale <= 0:
                raise E("")
            if c == "no":
                raise E("")
            if c == "broken":
                raise ZeroDivisionError("")
            return h.arr([pars[0], pars[1] * scale])
    return Flat


def group(h):
    n = h.p["n"]
    opts = ["yes", "no", "broken"]
    plan = [(h.choice("first%d" % i, h.p.get("first", opts)), h.choice("second%d" % i, h.p.get("second", opts))) for i in range(n)]
    Flat = stub(h, plan)
    pos, hts = h.reals("p", n), h.reals("h", n, nonneg=True)
    frees = [h.choice("free%d" % i, [True, False]) for i in range(n)] if h.p.get("fixed") else [True] * n
    peaks = h.cls("peaks.base", "Peaks")([actualize(h, Flat(i), [pos[i], hts[i]], [fr, fr]) for i, fr in enumerate(frees)])
    rem = [h.choice("removable%d" % i, [True, False]) if n <= 2 else i == 1 for i in range(n)]
    for p, b in zip(peaks, rem):
        p.removable = b
    x, y = h.real("x"), h.real("y")
    tot = sum(hts[1:], hts[0])
    orig = [list(p.pars) for p in peaks]
    res = peaks.match_at(x, y)
    h.prove(len(peaks) == n, "no peak is lost")
    changed = []
    for i in range(n):
        h.prove_eq(peaks[i].pars[0], orig[i][0], "peaks keep their order")
        h.prove([bool(b) for b in peaks[i].free] == [frees[i]] * 2 and peaks[i].removable == rem[i], "free flags unchanged")
        if not frees[i] or plan[i][0] == "no":
            h.prove_eq(peaks[i].pars[1], orig[i][1], "peaks that cannot be scaled stay as they are")
    if not res:
        for i in range(n):
            h.prove_eq(peaks[i].pars, h.arr(orig[i]), "when nothing was scaled all peaks are as before")
    can = [fr and p[0] == "yes" for fr, p in zip(frees, plan)]
    if not any(p[0] == "broken" and fr for fr, p in zip(frees, plan)) and bool(h.andb(y > 0, tot > 0)):
        if all(can):
            h.prove(bool(res), "a group that can be scaled is scaled")
            h.prove_eq(peaks.value(x), y, "when all peaks can be scaled the group reaches the height")
        elif any(can):
            fixed = sum([hts[i] for i in range(n) if not can[i]], 0.0)
            if bool(h.andb(fixed < y, fixed < tot)) and all(plan[i][1] == "yes" for i in range(n) if can[i]):
                h.prove(bool(res), "the peaks that can be scaled are scaled")
                h.prove_eq(peaks.value(x), y, "the peaks that can be scaled make up for those that cannot")
        else:
            h.prove(not res, "reports when no peak could be scaled")


def zero(h):
    """A group of zero height cannot be matched."""
    Flat = stub(h, [("yes", "yes")] * 2)
    a = h.real("a")
    peaks = h.cls("peaks.base", "Peaks")([actualize(h, Flat(0), [h.real("p0"), a]), actualize(h, Flat(1), [h.real("p1"), -a])])
    h.prove(not peaks.match_at(h.real("x"), h.real("y")), "nothing to scale")
    h.prove_eq(peaks[0].pars[1], a, "when nothing was scaled all peaks are as before")
    h.prove(not h.cls("peaks.base", "Peaks")([]).match_at(h.real("z"), 1.0), "an empty group cannot be matched")


def scenarios(tier):
    q = tier == "quick"
    T = list(itertools.product([True, False], repeat=3))
    out = []
    fr = [(True, True, True), (False, True, True), (True, False, True), (True, True, False)] if q else T
    for k in ["gaussian", "gaussianoverr"]:
        for c in ["ok", "wide", "beyond"][:2 + (k == "gaussianoverr")]:
            out.append(("%s-%s" % (k, c), "gauss", {"kind": k, "case": c, "frees": fr}, {"weight": 8}))
        out.append(("%s-toohigh" % k, "toohigh", {"kind": k, "frees": fr}, {"weight": 8}))
    for k in ["gaussian", "gaussianoverr"]:
        out.append(("refused-" + k, "refused", {"kind": k}, {}))
        if k == "gaussian":
            out.append(("one-" + k, "one", {"kind": k}, {}))
        for c in ("noarea", "top"):
            out.append(("degenerate-%s-%s" % (k, c), "singular", {"kind": k, "case": c}, {}))
    for n in (1, 2) if q else (1, 2, 3):
        out.append(("group%d" % n, "group", {"n": n}, {"weight": 3, "max_validate": 80}))
    out.append(("group3-part", "group", {"n": 3, "first": ["yes", "no"], "second": ["yes", "broken"]}, {"weight": 3, "max_validate": 80}))
    out.append(("group2-fixed", "group", {"n": 2, "fixed": True, "second": ["yes", "broken"]}, {"weight": 3, "max_validate": 80}))
    out.append(("zero", "zero", {}, {}))
    return out
