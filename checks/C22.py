"""Estimates of peaks and baselines."""
from checks.funcs import *  # noqa: F401,F403

FUNCTIONS = ["peaks.gaussian.Gaussian.estimate_parameters", "peaks.gaussianoverr.GaussianOverR.estimate_parameters", "peaks.terminationripples.TerminationRipples.estimate_parameters",
             "baselines.polynomial.Polynomial.estimate_parameters", "baselines.arbitrary.Arbitrary.estimate_parameters", "baselines.fromsequence.FromSequence.estimate_parameters"]
BOUNDS = ("peaks: 3-5 (thorough: up to 7) points of all real (Gaussian/r: positive) coordinates, all maximum widths, 11 (thorough: 15) patterns of heights, every other one times any positive factor "
          "(thorough: also any three positive heights on a given grid), with and without ripples; lines through the lowest tenth of at most 4 arbitrary points, "
          "or of up to 31 points whose order is given and whose values are symbolic; degrees -1 to 3")


def estimator(h, kind, W):
    base = peakfn(h, kind.replace("ripples-", ""), W)
    if kind.startswith("ripples-"):
        return h.cls("peaks.terminationripples", "TerminationRipples")(base, 20.0)
    return base


def lengths(h):
    """Data of unequal lengths, or too few positive points."""
    EE = h.cls("srmiseerrors", "SrMiseEstimationError")
    f = estimator(h, h.p["kind"], h.real("W", pos=True))
    n, m = h.p["n"], h.p["m"]
    r, y = h.increasing("r", n, positive=True), h.array("y", m)
    if n == m:
        h.assume(h.andb(*[h.notb(h.andb(*[y[i] > 0 for i in t])) for t in triples(n)]) if n >= 3 else True)
    h.prove(h.raises(lambda: f.estimate_parameters(r, y), EE) is not None, "unequal lengths or fewer than three points of positive height are refused")


def triples(n):
    import itertools
    return list(itertools.combinations(range(n), 3))


def peak(h):
    kind = h.p["kind"]
    W = h.real("W", pos=True)
    f = estimator(h, kind, W)
    n = h.p["n"]
    overr = "overr" in kind
    r = h.increasing("r", n, positive=overr) if not h.p.get("r") else h.arr(h.p["r"])
    if h.p.get("y"):
        y = list(h.p["y"])
        if h.p.get("scaled"):
            s = h.real("s", pos=True)
            y = [v * s for v in y]
    else:
        y = [h.real("y%d" % i, pos=h.p["signs"][i] == "+") for i in range(n)]
        for i in range(n):
            if h.p["signs"][i] == "-":
                h.assume(y[i] <= 0)
    use = [i for i in range(n) if h.p["signs"][i] == "+"]
    top = y[use[0]]
    for i in use[1:]:
        if bool(y[i] > top):
            top = y[i]
    ya = h.arr(y)
    r0, y0 = list(r), list(y)
    if h.mode == "sym":
        h.ctx.opaque = True            # roots stay variables
    p = f.estimate_parameters(r, ya)
    if h.mode == "sym":
        h.ctx.opaque = False
    h.prove(h.exact(list(r), r0) and h.exact(list(ya), y0), "data unchanged")
    h.prove(len(p) == 3, "three parameters")
    h.prove(h.andb(p[0] >= r0[use[0]], p[0] <= r0[use[-1]]), "the position lies within the points used")
    if h.p.get("part") == "filter":
        q = f.estimate_parameters(h.arr([r0[i] for i in use]), h.arr([y0[i] for i in use]))
        for a, b in zip(p, q):
            h.prove_eq(a, b, "only points of positive height are used")
        return
    w = W * h.sqrt((h.sin(p[1]) + 1) / 2)
    # the smallest and largest angle are those of width zero and the maximum
    if h.p.get("part") != "any":
        h.prove(h.andb(W * W * (h.sin(p[1]) + 1) / 2 > 0, h.sin(p[1]) <= 1), "the width is positive and at most the maximum")
    h.prove(h.andb(p[1] >= -h.pi / 2, p[1] <= h.pi / 2), "the angle is the principal one")
    if h.p.get("part") != "any":
        h.prove(p[2] > 0, "the area is positive")
    c = h.sqrt(h.pi / (4 * h.ln2))
    scale = (p[0] if overr else 1.0)
    h.prove_eq(p[2] * p[2], c * c * top * top * scale * scale * (W * W * (h.sin(p[1]) + 1) / 2), "the height at the position is the maximum of the data")


def height(h):
    """The curve of that area has the height at the position."""
    kind = h.p["kind"].replace("ripples-", "")
    W, w, Y, x = h.real("W", pos=True), h.real("w", pos=True), h.real("Y", pos=True), h.real("x", pos=True)
    h.assume(w <= W)
    c = h.sqrt(h.pi / (4 * h.ln2))
    f = peakfn(h, kind, W)
    p = [x, h.arcsin(2 * w * w / (W * W) - 1), c * Y * w * (x if "overr" in kind else 1.0)]
    part = actualize(h, f, p)
    h.prove_eq(part.value(h.arr([x]))[0], Y, "a peak of this area has the height at its position")
    g = actualize(h, f, [x, h.pi / 2, c * Y * W * (x if "overr" in kind else 1.0)])
    h.prove_eq(g.value(h.arr([x]))[0], Y, "the widest peak of this area has the height at its position")


def zero(h):
    d = h.p["degree"]
    f = peakfn(h, "poly%d" % d)
    n = h.choice("n", [0, 1, 3])
    r, y = h.array("r", n), h.array("y", n)
    if d > 1:
        h.prove(h.raises(lambda: f.estimate_parameters(r, y), NotImplementedError) is not None, "higher degrees are refused")
        return
    p = f.estimate_parameters(r, y)
    h.prove(len(p) == d + 1 and h.andb(*[h.eq(x, 0.0) for x in p]), "zero")


def mismatch(h):
    f = peakfn(h, "poly%d" % h.p["degree"])
    E = (ValueError, h.cls("srmiseerrors", "SrMiseEstimationError"))
    for n, m in ((2, 3), (3, 2), (0, 1), (1, 0)):
        h.prove(h.raises(lambda: f.estimate_parameters(h.array("r%d%d" % (n, m), n), h.array("y%d%d" % (n, m), m)), *E) is not None, "unequal lengths are refused")


def line(h):
    """Through the origin and the lowest tenth."""
    f = peakfn(h, "poly1")
    n = h.p["n"]
    r = [h.real("r%d" % i) for i in range(n)]
    if h.p.get("order"):
        order = h.p["order"]
        y = [None] * n
        for rank_, i in enumerate(order):
            y[i] = rank_ - n / 2 + h.real("u%d" % i, lo=-0.4, hi=0.4)
        low = order[:max(n // 10, 1)]
    else:
        y = [h.real("y%d" % i) for i in range(n)]
        k = h.choice("lowest", list(range(n)))
        for i in range(n):
            if i != k:
                h.assume(y[k] < y[i])
        low = [k]
    for i in low:
        h.assume(h.orb(abs(r[i]) >= 0.001, r[i] == 0) if h.mode == "sym" or True else True)
    if h.p.get("nonzero"):
        h.assume(abs(r[low[0]]) > 0.01)
    ya, ra = h.arr(y), h.arr(r)
    p = f.estimate_parameters(ra, ya)
    h.prove(h.exact(list(ra), r) and h.exact(list(ya), y), "data unchanged")
    h.prove(len(p) == 2, "two parameters")
    h.prove_eq(p[1], 0.0, "through the origin")
    rr = sum([r[i] * r[i] for i in low], 0.0)
    ry = sum([r[i] * y[i] for i in low], 0.0)
    h.prove_eq(p[0] * rr, ry, "least squares through the lowest tenth of the points")


def ties(h):
    """Several lowest points: one of them."""
    f = peakfn(h, "poly1")
    n = h.p["n"]
    r = h.reals("r", n, pos=True)
    v = h.real("v")
    y = [v if i in h.p["low"] else v + h.real("u%d" % i, pos=True) for i in range(n)]
    p = f.estimate_parameters(h.arr(r), h.arr(y))
    h.prove(h.orb(*[h.eq(p[0] * r[i], v) for i in h.p["low"]]), "the line goes through a lowest point")


def arbitrary(h):
    EE = h.cls("srmiseerrors", "SrMiseEstimationError")
    A = h.cls("baselines.arbitrary", "Arbitrary")
    r, y = h.array("r", 2), h.array("y", 2)
    val = lambda p, x: p[0] + x * 0  # noqa: E731
    f = A(1, val)
    h.prove(h.raises(lambda: f.estimate_parameters(r, y), NotImplementedError) is not None, "no estimation without a routine")
    seen = []

    def est(a, b):
        seen.append((a, b))
        return h.arr([a[0] + 2 * b[1]])
    p = A(1, val, estimatef=est).estimate_parameters(r, y)
    h.prove(len(seen) == 1 and len(p) == 1, "the given routine estimates")
    h.prove_eq(p[0], r[0] + 2 * y[1], "its result is the estimate")

    def bad(a, b):
        raise h.choice("error", [ValueError, KeyError, RuntimeError, ZeroDivisionError])("x")
    g = A(1, val, estimatef=bad)
    h.prove(h.raises(lambda: g.estimate_parameters(r, y), EE) is not None, "errors of the routine are estimation errors")
    xs = [0.0, 1.0, 2.0, 3.0]
    s = h.cls("baselines.fromsequence", "FromSequence")(h.np.array(xs), h.np.array(xs))
    h.prove(len(s.estimate_parameters(r, y)) == 0, "sequences have no parameters")


YS = [[1.0, 3.0, 2.0], [3.0, 3.0, 1.0, 2.0], [2.0, 1.0, 3.0, 3.0], [-1.0, 1.0, 3.0, 1.0, -2.0], [2.0, 2.0, 2.0], [3.0, 0.0, 1.0, 2.0], [1.0, 1.0, 2.0], [2.0, 1.0, 2.0], [2.0, 1.0, 1.0], [0.0, 1.0, 2.0, 4.0], [-3.0, 5.0, 1.0, 0.5, 5.0]]
YS2 = [[0.1, 0.5, 2.0, 7.0, 2.5, 0.2], [1.0, -1.0, 2.0, -2.0, 3.0, -3.0, 0.5], [1e-6, 1.0, 1e6], [4.0, 4.0, 1.0, 4.0, 4.0, -9.0]]




def scenarios(tier):
    q = tier == "quick"
    out = []
    for kind in ("gaussian", "gaussianoverr", "ripples-gaussian", "ripples-gaussianoverr"):
        for n, m in ((0, 0), (2, 2), (3, 3), (4, 4), (3, 4), (4, 3), (0, 3)):
            out.append(("few-%s-%d-%d" % (kind, n, m), "lengths", {"kind": kind, "n": n, "m": m}, {"max_validate": 50}))
        rip = kind.startswith("ripples")
        for k, ys in enumerate(YS[:4] if rip else YS if q else YS + YS2):
            P = {"kind": kind, "n": len(ys), "signs": "".join("+" if v > 0 else "-" for v in ys), "y": ys}
            out.append(("peak-%s-%d" % (kind, k), "peak", dict(P, scaled=k % 2 == 0), {"weight": 3}))
            if "-" in P["signs"]:
                out.append(("filter-%s-%d" % (kind, k), "peak", dict(P, part="filter"), {"weight": 3}))
        # the heights themselves vary
        if not q and not rip:
            out.append(("any-%s" % kind, "peak", {"kind": kind, "n": 3, "signs": "+++", "r": [0.7, 1.0, 1.5], "part": "any"}, {"weight": 5}))
        out.append(("height-%s" % kind, "height", {"kind": kind}, {"weight": 2}))
    for d in (-1, 0, 2, 3):
        out.append(("degree%d" % d, "zero", {"degree": d}, {}))
    for d in (-1, 0, 1):
        out.append(("mismatch%d" % d, "mismatch", {"degree": d}, {}))
    for n in (1, 2, 3, 4):
        out.append(("line%d" % n, "line", {"n": n}, {"weight": 2}))
    for n in (9, 10, 19, 20) if q else (9, 10, 11, 19, 20, 29, 30, 31):
        order = [(i * 7 + 3) % n for i in range(n)] if n % 7 else list(range(n))
        out.append(("tenth%d" % n, "line", {"n": n, "order": order, "nonzero": True}, {"weight": 4}))
    out.append(("ties", "ties", {"n": 3, "low": [0, 2]}, {}))
    out.append(("arbitrary", "arbitrary", {}, {}))
    return out
