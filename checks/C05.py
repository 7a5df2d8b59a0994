"""Jacobians of parts and models."""
from checks.funcs import *  # noqa: F401,F403

FUNCTIONS = ["basefunction.BaseFunction.jacobian", "modelparts.ModelParts.residual_jacobian", "modelparts.ModelPart.jacobian",
             "peaks.gaussian.Gaussian._jacobianraw", "peaks.gaussianoverr.GaussianOverR._jacobianraw",
             "baselines.polynomial.Polynomial._jacobianraw", "baselines.nanospherical.NanoSpherical._jacobianraw/_jacobianrawscale/_jacobianrawradius",
             "baselines.arbitrary.Arbitrary._jacobianraw"]
BOUNDS = ("grids of 2 (quick) / 3 (thorough) arbitrary real points, every contiguous range, every subset of free parameters; all real "
          "parameters where the function is differentiable (|area|, |scale| >= 0.01, |r - 2R| >= 0.01, r != 0 for Gaussian/r); polynomials of degree "
          "-1..3 / 5; models of at most 3 parts.  FromSequence (a spline without parameters) is outside")


def smooth(h, kind, pars, xs):
    """Stay away from points where the documented function has a kink."""
    if isgauss(kind):
        if bool(pars[2] > 0):
            h.assume(pars[2] >= 0.01)
        else:
            h.assume(pars[2] <= -0.01)
    if kind == "nano":
        h.assume(abs(pars[0]) >= 0.01)
        h.assume(abs(pars[1]) >= 0.01)
        for x in xs:
            h.assume(abs(x - 2 * abs(pars[1])) >= 0.01)


def subset(h, n, tag="free"):
    return [h.choice("%s%d" % (tag, i), [True, False]) for i in range(n)]


def single(h):
    kind, n = h.p["kind"], h.p["n"]
    W = h.real("W", pos=True) if isgauss(kind) else None
    f = peakfn(h, kind, W)
    pars = genpars(h, kind)
    r = gengrid(h, kind, n)
    smooth(h, kind, pars, r)
    free = subset(h, len(pars))
    s = h.choice("range", h.p["slices"])
    part = actualize(h, f, pars, free)
    jac = part.jacobian(r, mkslice(s))
    h.prove(len(jac) == len(pars), "one entry per parameter")
    ins = inrange(s, n)
    for i in range(len(pars)):
        if not free[i]:
            h.prove(jac[i] is None, "fixed parameters have no derivative")
            continue
        h.prove(jac[i] is not None, "free parameters have a derivative")
        h.prove(len(jac[i]) == n, "the derivative has one entry per grid point")
        for k in range(n):
            if k in ins:
                d = h.deriv(lambda *p: actualize(h, f, list(p), free).value(r[k]), pars, i)
                h.prove_deriv(jac[i][k], d, "inside the range the entry is the partial derivative of the value")
            else:
                h.prove_eq(jac[i][k], 0.0, "outside the range the derivative is zero")
    h.prove_eq(h.arr(pars), part.pars, "differentiation leaves the parameters unchanged")


def scalar(h):
    kind = h.p["kind"]
    W = h.real("W", pos=True) if isgauss(kind) else None
    f = peakfn(h, kind, W)
    pars = genpars(h, kind)
    r = gengrid(h, kind, 1)
    smooth(h, kind, pars, r)
    part = actualize(h, f, pars)
    jac = part.jacobian(r[0])
    h.prove(len(jac) == len(pars), "one entry per parameter")
    for i in range(len(pars)):
        d = h.deriv(lambda *p: actualize(h, f, list(p)).value(r[0]), pars, i)
        h.prove_deriv(jac[i], d, "a single number is differentiated like a one-point grid")


def rawfree(h):
    """The raw routine accepts any sequence of free flags."""
    kind, n = h.p["kind"], 2
    W = h.real("W", pos=True) if isgauss(kind) else None
    f = peakfn(h, kind, W)
    pars = genpars(h, kind)
    r = gengrid(h, kind, n)
    smooth(h, kind, pars, r)
    a = f._jacobianraw(h.arr(pars), r, [True] * len(pars))
    b = actualize(h, f, pars).jacobian(r)
    for x, y in zip(a, b):
        h.prove_eq(x, y, "flags may be any sequence")


def model(h):
    """Rows of the residual's Jacobian follow the packing order of the free parameters."""
    kinds, n = h.p["kinds"], h.p["n"]
    W = h.real("W", pos=True) if any(isgauss(k) for k in kinds) else None
    parts, allp = [], []
    g = "gaussianoverr" if "gaussianoverr" in kinds else ("nano" if "nano" in kinds else "")
    r = gengrid(h, g, n)
    frees = []
    pat = h.choice("pattern", h.p["patterns"]) if "patterns" in h.p else None
    for i, k in enumerate(kinds):
        pars = genpars(h, k, "_%d" % i)
        smooth(h, k, pars, r)
        fr = subset(h, len(pars), "f%d_" % i) if pat is None else list(pat[len(frees):len(frees) + len(pars)])
        frees += fr
        parts.append(actualize(h, peakfn(h, k, W), pars, fr))
    cls = h.cls("peaks.base", "Peaks") if h.p.get("peaks") else h.cls("modelparts", "ModelParts")
    m = cls(parts)
    s = h.choice("range", h.p["slices"])
    y, e = h.array("y", n), h.array("e", n, pos=True)
    free = m.unpack_freepars()
    nf = len([f for f in frees if f])
    h.prove(len(free) == nf, "one entry per free parameter")
    if nf == 0:
        h.prove(h.raises(lambda: m.residual_jacobian(free, r, y, e, mkslice(s)), ValueError) == "ValueError",
                "without free parameters there is no Jacobian")
        return
    ins = inrange(s, n)
    # at a new point, to see that the given parameters are used
    new = list(free)
    jac = m.residual_jacobian(h.arr(new), r, y, e, mkslice(s))
    h.prove(tuple(jac.shape) == (nf, len(ins)), "one row per free parameter, one column per point of the range")
    for i in range(nf):
        d = h.deriv(lambda *p: m.residual(h.arr(list(p)), r, y, e, mkslice(s)), new, i)
        for j in range(len(ins)):
            h.prove_deriv(jac[i][j], d[j], "rows are the derivatives of the residual in packing order")


def moved(h):
    """The Jacobian is taken at the given parameters, not at the current ones."""
    n = 2
    m = h.cls("modelparts", "ModelParts")([actualize(h, peakfn(h, k), genpars(h, k, "_" + k)) for k in ("const2", "poly1")])
    r, y, e = h.array("r", n), h.array("y", n), h.array("e", n, pos=True)
    new = h.reals("n", 4)
    jac = m.residual_jacobian(h.arr(new), r, y, e, None)
    d = [[2, new[1], 0, 0], [], [], []]
    for k in range(n):
        exp = [r[k] * r[k] + new[1], new[0] + r[k], r[k], 1.0]
        for i in range(4):
            h.prove_eq(jac[i][k], -exp[i] / e[k], "the Jacobian is taken at the given parameters")


def scenarios(tier):
    q = tier == "quick"
    n = 2 if q else 3
    sl = slices(n) if not q else [None, (0, 1), (1, 2), (0, 2), (1, 1), (None, -1), (-1, None)]
    D = range(-1, 4 if q else 6)
    out = []
    for k in ["gaussian", "gaussianoverr", "nano", "const2"] + ["poly%d" % d for d in D]:
        out.append(("jac-" + k, "single", {"kind": k, "n": n, "slices": sl}, {"weight": 10, "max_validate": 60}))
        if k != "poly-1":
            out.append(("scalar-" + k, "scalar", {"kind": k}, {}))
            out.append(("flags-" + k, "rawfree", {"kind": k}, {}))
    mods = [["const2"], ["poly1", "const2"], ["gaussian", "poly0"], ["gaussianoverr", "gaussian"], ["nano", "poly1"],
            ["gaussianoverr", "poly-1"], ["poly2", "poly0", "const2"]]
    for ks in mods:
        big = "gaussianoverr" in ks and "gaussian" in ks
        msl = [None, (0, 1), (1, 2)] if q else sl
        p = {"kinds": ks, "n": 2, "slices": msl if not big else msl[:2]}
        if big and q:
            p["patterns"] = [[True, False, True, False, True, True], [False, True, False, True, False, False],
                             [False] * 3 + [True, False, True], [True] * 6]
        out.append(("model-" + "+".join(ks), "model", p, {"weight": 12, "max_validate": 40, "budget_s": 280 if q else 1500}))
    out.append(("model-peaks", "model", {"kinds": ["gaussian", "gaussianoverr"], "n": 2, "slices": [None, (0, 1)], "patterns": [[True] * 6], "peaks": True},
                {"weight": 12}))
    out.append(("moved", "moved", {}, {}))
    return out
