"""Resampling of PDFs."""
from checks.funcs import *  # noqa: F401,F403
import math

from checks.C15 import stubqmax
from checks.C21 import close

from symex import npshim

FUNCTIONS = ["pdfpeakextraction.resample/stdratio/find_qmax", "pdfpeakextraction.PDFPeakExtraction.resampledata/errorscale"]
BOUNDS = ("data of 2 to 4 (quick) / 6 points on any evenly spaced grid (any start and step), all real values; up to 2 (quick) / 3 new points anywhere and up to 3 / 4 at a step; all qmax, steps, ranges and uncertainties; "
          "run ratios of data of up to 8 (quick) / 10 points; determination of qmax for 8 to 12 (quick) / 16 points with resampled values and run ratios arbitrary")


def sinc(h, x):
    return npshim._sinc(x) if h.mode == "sym" else h.np.sinc(x)


def grid(h, n):
    r0, dr = h.real("r0", lo=-50, hi=50), h.real("dr", lo=0.01, hi=5)
    return [r0 + i * dr for i in range(n)], dr


def interpolation(h, r, y, dr, x):
    return sum([v * sinc(h, (x - s) / dr) for s, v in zip(r, y)], 0.0)


def own(h):
    """The original grid, or a part of it, gives the original values."""
    n = h.p["n"]
    r, dr = grid(h, n)
    y = h.reals("y", n)
    lo = h.choice("from", list(range(n)))
    hi = h.choice("to", list(range(lo + 1, n + 1)))
    step = h.choice("every", [1, 2])
    idx = list(range(lo, hi, step))
    args = [h.arr(r), h.arr(y), h.arr([r[i] for i in idx])]
    got = h.mod("pdfpeakextraction").resample(*args)
    h.prove(len(got) == len(idx), "one value per new point")
    h.prove_eq(list(got), [y[i] for i in idx], "resampling on the original grid reproduces the values")
    h.prove_eq(list(args[0]) + list(args[1]) + list(args[2]), r + y + [r[i] for i in idx], "the data are not modified")


def anywhere(h):
    """Sinc interpolation on any grid."""
    n, m = h.p["n"], h.p["m"]
    r, dr = grid(h, n)
    y = h.reals("y", n)
    x = [h.real("x%d" % i, lo=-60, hi=60) for i in range(m)]
    for i in range(1, m):
        h.assume(x[i] > x[i - 1])
    kind = h.choice("kind", ["arrays", "lists"])
    yy = h.arr(y) if kind == "arrays" else list(y)
    xx = h.arr(x)
    got = h.mod("pdfpeakextraction").resample(h.arr(r) if kind == "arrays" else list(r), yy, xx)
    h.prove(len(got) == m, "one value per new point")
    for g, v in zip(got, x):
        h.prove_eq(g, interpolation(h, r, y, dr, v), "resampling is the sinc interpolation of the data")
    h.prove_eq(list(xx) + list(yy), x + y, "the data are not modified")


def extraction(h, r, y, fd=None):
    stubqmax(h, fd)
    pe = h.cls("pdfpeakextraction", "PDFPeakExtraction")()
    pe.setdata(h.arr(r), h.arr(y), None if h.p.get("nodx", True) else h.arr(h.reals("dx", len(r))), None)
    return pe


def expected(h, pe, q, step, label):
    scale, nyq = bool(pe.scale), bool(pe.nyquist)
    got = pe.errorscale(step)
    if scale and nyq and bool(q > 0):
        h.prove(got >= 1, label)
        want = h.ite(h.pi >= q * step, h.pi, q * step)
        h.prove_eq(got * got * q * step, want, label)
    else:
        h.prove_eq(got, 1.0, label)
    return got


def scale(h):
    """Uncertainties grow with the square root of the degree of oversampling, if asked for."""
    pe = extraction(h, [1.0, 2.0, 3.0], [0.0, 1.0, 0.5])
    q = h.real("q", lo=0, hi=50)
    pe.setvars(qmax=q)
    for k in ("nyquist", "scale"):
        v = h.choice(k, [None, True, False])
        if v is not None:
            pe.setvars(**{k: v})
    expected(h, pe, q, h.real("step", lo=0.001, hi=10), "errors are scaled by the square root of Nyquist step over step, never below one")


def resampled(h):
    n = h.p["n"]
    if h.mode == "sym":
        h.ctx.forkite = True          # branch instead of conditional terms inside sin()
    r, dr = grid(h, n)
    y = h.reals("y", n)
    pe = extraction(h, r, y)
    e = h.reals("e", n, pos=True)
    kw = dict(effective_dy=h.arr(e), qmax=h.real("q", lo=0, hi=20))
    lo, hi = r[0], r[-1]
    rng = h.choice("rng", h.p["rng"])
    if rng:
        a, b = h.real("lo", lo=-60, hi=60), h.real("hi", lo=-60, hi=60)
        h.assume(h.andb(a < b, a < hi, b > lo))
        kw["rng"] = [a if "l" in rng else None, b if "r" in rng else None]
        if "l" in rng:
            lo = lo if bool(lo >= a) else a
        if "r" in rng:
            hi = hi if bool(hi <= b) else b
    if h.choice("scale", h.p["scale"]):
        kw["scale"] = True
    pe.setvars(**kw)
    step = h.real("step", lo=0.01, hi=5)
    h.assume(hi - lo <= h.p["max"] * step)
    got = pe.resampledata(step) if h.choice("eps", [False, True]) else pe.resampledata(step, eps=0.5)
    m = len(got[0])
    h.prove(all(len(g) == m for g in got) and len(got) == 4, "resampled values and uncertainties of equal length")
    h.prove(h.andb(h.lt(lo + (m - 1) * step, hi), h.le(hi, lo + m * step)), "the new points cover the active range")
    h.prove_eq(list(got[0]), [lo + k * step for k in range(m)], "the new points are evenly spaced, at the step asked for")
    f = expected(h, pe, kw["qmax"], step, "errors are scaled by the square root of Nyquist step over step, never below one")
    for k in range(m):
        x = lo + k * step
        h.prove_eq(got[1][k], interpolation(h, r, y, dr, x), "resampling is the sinc interpolation of the data")
        for i in range(n - 1):
            if bool(h.andb(r[i] <= x, x <= r[i + 1])):
                h.prove_eq(got[3][k] * dr, f * (e[i] * (r[i + 1] - x) + e[i + 1] * (x - r[i])), "uncertainties are interpolated and scaled")
                break
        else:
            h.prove(False, "the new points cover the active range")
        h.prove_eq(got[2][k], 0.0, "missing uncertainties of r stay zero")
    h.prove_eq(list(pe.x) + list(pe.y) + list(pe.effective_dy), r + y + e, "the data are not modified")


def ratio(h):
    """Ratio of the standard deviations of successive runs of equal length."""
    n = h.p["n"]
    d = h.reals("d", n)
    got = None
    want = []
    for i in range(n // 2 - 1):
        a, b = d[:i + 2], d[i + 2:2 * i + 4]
        ss = []
        for s in (a, b):
            m = sum(s, 0.0) / len(s)
            ss.append(sum([(v - m) ** 2 for v in s], 0.0))
        h.assume(ss[1] > 0.001)
        want.append(ss)
    got = h.mod("pdfpeakextraction").stdratio(h.arr(d))
    h.prove(len(got) == len(want), "one ratio per pair of runs")
    for g, (a, b) in zip(got, want):
        h.prove(g >= 0, "the ratio of standard deviations of runs of equal length")
        h.prove_eq(g * g * b, a, "the ratio of standard deviations of runs of equal length")


def determined(h):
    """qmax from the data: where the run ratio of the sine transform bends most."""
    M = h.mod("pdfpeakextraction")
    n = h.p["n"]
    if h.choice("lengths", ["equal", "unequal"]) == "unequal":
        h.prove(h.raises(lambda: M.find_qmax(h.arr(h.reals("r", n)), h.arr(h.reals("y", n - 1))), ValueError) is not None, "data of unequal lengths are refused")
        return
    span = h.real("span", lo=1, hi=100)
    r0 = h.real("r0", lo=-5, hi=5)
    r = [r0 + span * i / (n - 1) for i in range(n)]
    y, fine = h.reals("y", n), h.reals("f", 2 * n, lo=-10, hi=10)
    ratios = h.reals("s", n // 2 - 1, nonneg=True)
    calls = []

    def resample(a, b, c):
        calls.append("resample")
        h.prove_eq(list(a) + list(b), r + y, "the data are resampled")
        h.prove_eq(list(c), [r0 + span * i / (2 * n - 1) for i in range(2 * n)], "the data are resampled to twice the number of points, on their own range")
        return h.arr(fine)

    def stdratio(d):
        calls.append("stdratio")
        h.prove(len(d) == n, "the run ratio is that of the sine transform")
        for k in range(n):
            want = -sum([math.sin(2 * math.pi * k * j / (2 * n)) * v for j, v in enumerate(fine)], 0.0)
            close(h, d[k], want, "the run ratio is that of the sine transform")
        return h.arr(ratios)
    h.stub(M.resample, resample)
    h.stub(M.stdratio, stdratio)
    q, dq = M.find_qmax(h.arr(r), h.arr(y))
    h.prove(calls == ["resample", "stdratio"], "the run ratio is that of the sine transform")
    h.prove_eq(dq * span, 2 * h.pi, "the uncertainty is one step of frequency")
    bend = [2 * ratios[i + 1] - ratios[i] - ratios[i + 2] for i in range(len(ratios) - 2)]
    cs = []
    for p in range(len(bend)):
        cs.append(h.implies(h.andb(*[bend[p] >= b for b in bend[:p]] + [bend[p] > b for b in bend[p + 1:]]), h.eq(q * span, 2 * h.pi * (p + 2))))
    if h.mode == "sym":
        h.prove_all(cs, "qmax is where the run ratio bends most, the last one if there are several")
    else:
        top = sorted(bend)
        if len(top) < 2 or top[-1] - top[-2] > 1e-9:
            h.prove_all(cs, "qmax is where the run ratio bends most, the last one if there are several")


def scenarios(tier):
    q = tier == "quick"
    out = [("scale", "scale", {}, {})]
    for n in (2, 3, 4) if q else (2, 3, 4, 5, 6):
        out.append(("own%d" % n, "own", {"n": n}, {}))
    for n, m in [(2, 2), (3, 1), (4, 1)] if q else [(2, 2), (3, 2), (4, 2), (3, 3), (6, 1)]:
        out.append(("anywhere%d-%d" % (n, m), "anywhere", {"n": n, "m": m}, {}))
    for n, m in [(2, 2), (3, 2), (4, 3)] if q else [(2, 2), (3, 3), (4, 4), (5, 3)]:
        out.append(("data%d" % n, "resampled", {"n": n, "rng": [None, "lr"] if n == 2 or not q else [None, "l", "r"], "max": m, "scale": [False]}, {"weight": 3}))
        out.append(("scaled%d" % n, "resampled", {"n": n, "rng": [None, "r"], "max": m, "scale": [True]}, {"weight": 3}))
    for n in (8, 10, 12) if q else (8, 9, 10, 12, 14, 16):
        out.append(("qmax%d" % n, "determined", {"n": n}, {}))
    for n in (4, 6, 8) if q else (4, 5, 6, 7, 8, 10):
        out.append(("ratio%d" % n, "ratio", {"n": n}, {"weight": 2}))
    return out
