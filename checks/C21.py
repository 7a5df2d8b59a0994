"""Peaks with termination ripples."""
import math

from checks.funcs import *  # noqa: F401,F403

FUNCTIONS = ["peaks.terminationripples.TerminationRipples.cut_freq/extend_grid/value/jacobian/estimate_parameters/scale_at/_valueraw/_jacobianraw/_transform_*"]
BOUNDS = ("cuts of sequences of up to 9 (quick) / 20 numbers in [-10,10], for every number of kept frequencies and all qmax and spacings giving it (boundaries, here and for extensions, excluded by 1e-6); grid extensions of up to 3 (quick) / 4 points, "
          "all grids, spacings and qmax; values and derivatives of any base function (its values are symbolic) on listed grids, qmax, extensions and supersampling, ranges; the discrete Fourier transform is the defining sum, "
          "compared within 1e-7")
TOL = 1e-7


def kernel(n, low):
    """Real projection of n points on the frequencies below low (and their mirror images)."""
    kept = [k for k in range(n) if k < low or k > n - low]
    return [sum(math.cos(2 * math.pi * k * j / n) for k in kept) / n for j in range(n)]


def close(h, a, b, label):
    if h.mode == "sym":
        d = a - b
        h.prove(h.andb(d <= TOL, d >= -TOL), label)
    else:
        h.prove(abs(a - b) <= 10 * TOL, label)


def band(h, seq, low, label, got):
    n = 2 ** int(math.ceil(math.log2(len(seq)))) if len(seq) > 1 else 1
    ker = kernel(n, low)
    h.prove(len(got) == len(seq), "the result has the length of the sequence")
    for i in range(len(seq)):
        close(h, got[i], sum([ker[(i - j) % n] * v for j, v in enumerate(seq)], 0.0), label)


def ripples(h, base, qmax, **k):
    return h.cls("peaks.terminationripples", "TerminationRipples")(base, qmax, **k)


def plain(h):
    return peakfn(h, "gaussian", 0.7)


def cut(h):
    """The components at or above qmax are removed and the others kept."""
    n = h.p["n"]
    N = 2 ** int(math.ceil(math.log2(n))) if n > 1 else 1
    low = h.choice("low", h.p.get("low") or list(range(1, N // 2 + 3)))
    seq = [h.real("s%d" % i, lo=-10, hi=10) for i in range(n)]
    if h.p.get("units", False):        # any spacing and qmax
        q, delta = h.real("q", lo=0.5, hi=50), h.real("delta", lo=0.005, hi=2)
        ratio = q * (N - 1) * delta        # over 2 pi: number of frequency steps below qmax
        h.assume(h.andb(ratio > (low - 1 + 1e-6) * 2 * h.pi, ratio < (low - 1e-6) * 2 * h.pi))
    else:
        q, delta = 2 * math.pi * (low - 0.5) / (N - 1) if N > 1 else 3.0, 1.0
    f = ripples(h, plain(h), q)
    a = h.arr(seq)
    got = f.cut_freq(a, delta)
    band(h, seq, low, "components at or above qmax are removed, the others kept", got)
    h.prove_eq(list(a), seq, "the sequence is not modified")


def steps(h, r, dr, up, qmax, ext):
    """The points by which a grid has to be extended."""
    out, k = [], 1
    e = 2 * h.pi * ext / qmax
    while k < 40:
        x = r + k * dr if up else r - k * dr
        if up:
            h.assume(abs(r + e + dr - x) > 1e-6)
            if not bool(x < r + e + dr):
                return out
        else:
            lim = r - e - dr
            h.assume(h.andb(abs(lim) > 1e-6, abs(x) > 1e-6, abs(x - lim) > 1e-6))
            if not bool(x > (lim if bool(lim > 0) else 0.0)):
                return out
        out.append(x)
        k += 1
    return out


def extend(h):
    n = h.p["n"]
    if h.mode == "sym":
        h.ctx.forkite = True
    dr = h.real("dr", lo=0.01, hi=2)
    r0 = h.real("r0", lo=0, hi=20)
    q = h.real("q", lo=0.5, hi=50)
    ext = h.choice("ext", h.p["ext"])
    h.assume(ext * 2 * h.pi <= h.p["max"] * q * dr)
    r = [r0 + i * dr for i in range(n)]
    f = ripples(h, plain(h), q, extension=ext)
    a = h.arr(r)
    g, s = f.extend_grid(a, dr)
    left, right = steps(h, r[0], dr, False, q, ext)[::-1], steps(h, r[-1], dr, True, q, ext)
    h.prove(len(g) == len(left) + n + len(right), "the grid is extended by the extension on both sides, not below r=0")
    h.prove_eq(list(g), left + r + right, "the grid is extended by the extension on both sides, not below r=0")
    h.prove(list(range(len(g)))[s] == list(range(len(left), len(left) + n)), "the slice gives the original points")
    h.prove_eq(list(a), r, "the grid is not modified")


def anybase(h):
    """A peak function with arbitrary values: one input per point and parameter."""
    PF = h.cls("peaks.base", "PeakFunction")
    seen = {}

    def v(kind, x):
        name = "%s@%.6f" % (kind, round(float(x), 6) + 0.0)
        if name not in seen:
            seen[name] = h.real(name, lo=-10, hi=10)
        return seen[name]

    class Any(PF):
        def __init__(self):
            PF.__init__(self, {"position": 0, "height": 1}, ["internal", "other"], {"default_input": "internal", "default_output": "internal"}, {})

        def estimate_parameters(self, r, y):
            return ("estimate", r, y)

        def scale_at(self, pars, x, s):
            return ("scale", pars, x, s)

        def _transform_parametersraw(self, pars, in_format, out_format):
            return h.arr(list(pars)) if in_format == out_format else h.arr(list(pars)[::-1])

        def _transform_derivativesraw(self, pars, in_format, out_format):
            return ("derivatives", in_format, out_format)

        def _valueraw(self, pars, r):
            return h.arr([v("v", x) for x in r]) if not h.np.isscalar(r) else v("v", r)

        def _jacobianraw(self, pars, r, free):
            return [h.arr([v("j%d" % k, x) for x in r]) if free[k] else None for k in range(2)]
    f = Any()
    f.v = v
    return f


def extended(r, dr, q, ext):
    e = ext * 2 * math.pi / q
    left, right = [], []
    k = 1
    while r[0] - k * dr > max(0.0, r[0] - e - dr) + 1e-9:
        left.append(r[0] - k * dr)
        k += 1
    k = 1
    while r[-1] + k * dr < r[-1] + e + dr - 1e-9:
        right.append(r[-1] + k * dr)
        k += 1
    return left[::-1] + list(r) + right, len(left)


def oracle(base, kind, r, q, ext, ss):
    """What the values at the points r have to be, as linear combinations of base values."""
    dr = (r[-1] - r[0]) / (len(r) - 1) if len(r) > 1 else None
    sup = 2 * math.pi / (ss * q)
    return dr, sup


def value(h):
    """The band-limited base function, on the points asked for."""
    grid, q, ext, ss = h.choice("case", h.p["cases"])
    kind = h.choice("kind", ["value", "jacobian"])
    base = anybase(h)
    f = ripples(h, base, q, extension=ext, supersample=ss)
    p = actualize(h, f, [1.0, 2.0], h.choice("free", [[True, False], [True, True]]) if kind == "jacobian" else [True, False])
    sup = 2 * math.pi / (ss * q)
    scalar = not isinstance(grid, (tuple, list))
    r = [grid] if scalar else list(grid)
    rng = None if scalar else h.choice("rng", [None] + [(a, b) for a in range(len(r)) for b in range(a + 1, len(r) + 1) if b - a in (1, 2, len(r) - 1)][:h.p["rngs"]])
    dr = (r[-1] - r[0]) / (len(r) - 1) if len(r) > 1 else sup
    seg = int(math.ceil(dr / sup - 1e-9))
    ds = dr / seg
    part = r if rng is None else r[rng[0]:rng[1]]
    fine = [part[0] + i * ds for i in range((len(part) - 1) * seg + 1)] if seg > 1 else part
    g, off = extended(fine, ds, q, ext)
    n = 2 ** int(math.ceil(math.log2(len(g)))) if len(g) > 1 else 1
    low = q * (n - 1) * ds / (2 * math.pi)
    assert abs(low - round(low)) > 1e-6, (low, grid)
    ker = kernel(n, int(math.ceil(low)))
    arg = r[0] if scalar else h.arr(r)
    if kind == "value":
        out = [("v", p.value(arg) if rng is None else p.value(arg, slice(*rng)))]
    else:
        j = p.jacobian(arg) if rng is None else p.jacobian(arg, slice(*rng))
        h.prove(len(j) == 2 and all((v is not None) == bool(b) for v, b in zip(j, p.free)), "derivatives are those by the free parameters")
        out = [("j%d" % k, v) for k, v in enumerate(j) if v is not None]
    for name, got in out:
        if scalar:
            got = [got]
            h.prove(np_isscalar(h, got[0]), "the value at a point is a number")
        h.prove(len(got) == len(r), "one value per point asked for")
        for i in range(len(r)):
            if rng is not None and not rng[0] <= i < rng[1]:
                h.prove_eq(got[i], 0.0, "the value is zero outside the range asked for")
                continue
            m = off + (i - (rng[0] if rng else 0)) * seg
            want = sum([ker[(m - k) % n] * base.v(name, x) for k, x in enumerate(g)], 0.0)
            close(h, got[i], want, "the %s is the band-limited one of the base function" % ("value" if name == "v" else "derivative"))
    if not scalar:
        h.prove_eq(list(arg), r, "the grid is not modified")


def np_isscalar(h, v):
    return h.np.isscalar(v) or getattr(v, "shape", ()) == ()


def delegated(h):
    """Estimation, scaling and formats are those of the base function."""
    base = anybase(h)
    q = h.real("q", pos=True)
    f = ripples(h, base, q, extension=h.real("e", pos=True), supersample=h.real("s", pos=True))
    a, b, c = object(), object(), object()
    h.prove(f.estimate_parameters(a, b) == ("estimate", a, b), "estimation is that of the base function")
    h.prove(f.scale_at(a, b, c) == ("scale", a, b, c), "scaling is that of the base function")
    h.prove(f.parformats == base.parformats and f.parameterdict == base.parameterdict and f.default_formats == base.default_formats, "formats are those of the base function")
    x = h.arr(h.reals("x", 2))
    for i in ("internal", "other"):
        for o in ("internal", "other"):
            h.prove_eq(f.transform_parameters(x, i, o), base.transform_parameters(x, i, o), "formats are those of the base function")
            h.prove(f.transform_derivatives(x, i, o) == base.transform_derivatives(x, i, o), "formats are those of the base function")
    h.prove_eq(f.qmax, q, "qmax is that given")
    h.prove(f.base is base and f.npars == base.npars, "the base function is that given")
    p = actualize(h, base, [1.0, 2.0])
    p2 = actualize(h, f, [1.0, 2.0])
    for bad in (lambda: f.value(p, h.arr([1.0, 2.0])), lambda: f.jacobian(p, h.arr([1.0, 2.0])), lambda: base.value(p2, h.arr([1.0, 2.0]))):
        h.prove(h.raises(bad, ValueError) is not None, "peaks of other functions are refused")


def arith(a, d, n):
    return tuple(a + d * i for i in range(n))


def scenarios(tier):
    q = tier == "quick"
    out = [("delegated", "delegated", {}, {})]
    for n in (2, 3, 4, 5, 7, 8, 9) if q else (2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20):
        out.append(("cut%d" % n, "cut", {"n": n}, {"weight": 2}))
    for n in (2, 3, 4, 6, 8, 12) if q else (2, 3, 4, 6, 8, 12, 16, 20, 24):
        out.append(("units%d" % n, "cut", {"n": n, "units": True}, {"weight": 2}))
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        out.append(("extend%d" % n, "extend", {"n": n, "ext": [1.0, 4.0], "max": 4 if q else 8}, {}))
    cases = [(arith(2.0, 0.25, 3), 5.0, 0.3, 5.0), (arith(1.0, 0.5, 3), 6.0, 0.4, 5.0), (2.0, 6.0, 1.0, 4.0), ((2.0,), 6.0, 1.0, 4.0), (0.1, 6.0, 1.0, 5.0),
             (arith(0.2, 0.2, 4), 4.0, 0.7, 5.0), (arith(0.3, 1.0, 3), 3.0, 0.5, 2.0), (arith(5.0, 0.1, 4), 20.0, 1.0, 3.0)]
    if not q:
        cases += [(arith(3.0, 0.05, 6), 25.0, 1.0, 5.0), (arith(0.07, 0.05, 5), 25.0, 4.0, 5.0), (arith(1.0, 2.0, 3), 2.5, 0.2, 3.0), (1.5, 10.0, 4.0, 5.0), (arith(0.0, 0.3, 4), 8.0, 1.0, 2.5)]
    for k, c in enumerate(cases):
        out.append(("value%d" % k, "value", {"cases": [c], "rngs": 5 if q else 12}, {"weight": 2}))
    return out
