"""Shared builders for the function-level checks."""


def slices(n):
    out = [None]
    for a in range(n + 1):
        for b in range(a, n + 1):
            out.append((a, b))
    out += [(None, n - 1), (1, None), (-1, None), (0, -1)]
    return out


def mkslice(s):
    return None if s is None else slice(s[0], s[1])


def inrange(s, n):
    """Indices selected by the slice."""
    return list(range(n)) if s is None else list(range(n))[slice(s[0], s[1])]


def peakfn(h, kind, W=None):
    if kind == "gaussian":
        return h.cls("peaks.gaussian", "Gaussian")(W)
    if kind == "gaussianoverr":
        return h.cls("peaks.gaussianoverr", "GaussianOverR")(W)
    if kind.startswith("poly"):
        return h.cls("baselines.polynomial", "Polynomial")(int(kind[4:]))
    if kind == "nano":
        return h.cls("baselines.nanospherical", "NanoSpherical")()
    if kind == "const2":
        return custom(h)
    raise ValueError(kind)


def custom(h, module="baselines.arbitrary"):
    """A user-defined function (Arbitrary): p0*r**2 + p1*p0 + p1*r."""
    np = h.np

    def val(p, r):
        return p[0] * r ** 2 + p[1] * p[0] + p[1] * r

    def jac(p, r, free):
        j = [None, None]
        if free[0]:
            j[0] = r ** 2 + p[1] + r * 0
        if free[1]:
            j[1] = p[0] + r
        return j
    return h.cls(module, "Arbitrary")(2, val, jac)


def widthpars(h, tag="", turns=None):
    """Internal parameters of a Gaussian of positive width: position, angle, area."""
    p0 = h.real("pos" + tag)
    p1 = h.real("ang" + tag)
    if turns is not None:
        h.assume(abs(p1) <= turns * h.pi)
    a = h.real("area" + tag)
    h.assume(h.sin(p1) > -1)
    return [p0, p1, a]


def isgauss(kind):
    return kind in ("gaussian", "gaussianoverr")


def genpars(h, kind, tag=""):
    """Arbitrary internal parameters for a function kind (documented domain)."""
    if isgauss(kind):
        return widthpars(h, tag)
    if kind.startswith("poly"):
        return [h.real("c%d%s" % (i, tag)) for i in range(int(kind[4:]) + 1)]
    if kind == "nano":
        s, R = h.real("scale" + tag), h.real("radius" + tag)
        h.assume(R != 0)
        return [s, R]
    if kind == "const2":
        return [h.real("u0" + tag), h.real("u1" + tag)]


def gengrid(h, kind, n, tag="r"):
    """A grid on which the function is defined."""
    if kind == "gaussianoverr":
        r = h.reals(tag, n)
        for x in r:
            h.assume(x != 0)
            bool(x > 0)         # split: the function divides by |r|
        return h.arr(r)
    if kind == "nano":
        return h.increasing(tag, n)
    return h.array(tag, n)


def oracle(h, kind, pars, W, x):
    """Documented value at one coordinate."""
    if isgauss(kind):
        fwhm = h.sqrt(W * W * (h.sin(pars[1]) + 1) / 2)
        sigma = fwhm / (2 * h.sqrt(2 * h.ln2))
        v = abs(pars[2]) / (sigma * h.sqrt(2 * h.pi)) * h.exp(-(x - pars[0]) * (x - pars[0]) / (2 * sigma * sigma))
        if kind == "gaussianoverr":
            v = v / abs(x)
        return v
    if kind.startswith("poly"):
        d = int(kind[4:])
        t = 0.0
        for i in range(d + 1):
            t = t + pars[i] * x ** (d - i)
        return t
    if kind == "nano":
        s, R = abs(pars[0]), abs(pars[1])
        inside = h.andb(x > 0, x < 2 * R)
        if bool(inside):
            return -s * x * (1 - 3 * x / (4 * R) + x ** 3 / (16 * R ** 3))
        return 0.0
    if kind == "const2":
        return pars[0] * x * x + pars[1] * pars[0] + pars[1] * x


def actualize(h, f, pars, free=None):
    """A part with exactly these internal parameters."""
    cls = h.cls("peaks.base", "Peak") if isinstance(f, h.cls("peaks.base", "PeakFunction")) else \
        h.cls("baselines.base", "Baseline")
    return cls(f, h.arr(pars), free)
