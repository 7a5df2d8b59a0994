"""Covariance of fitted models."""
import itertools

from checks.funcs import *  # noqa: F401,F403

FUNCTIONS = ["modelcluster.ModelCovariance.*", "basefunction.BaseFunction.transform_derivatives",
             "peaks.gaussian.Gaussian._transform_derivativesraw", "peaks.gaussianoverr.GaussianOverR._transform_derivativesraw",
             "modelparts.ModelParts.fit (covariance part)"]
BOUNDS = ("models of at most 3 parts and 6 parameters, every set of free parameters (at least one), every real symmetric matrix, every pair of formats; "
          "format conversions at canonical parameters strictly between zero and maximum width, area > 0; fits of at most 4 (quick) / 5 points with an "
          "arbitrary solver answer (scipy's leastsq is replaced by a stub)")


def symm(h, n, tag="v"):
    v = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            v[i][j] = v[j][i] = h.real("%s%d_%d" % (tag, i, j))
    return v


def mat(h, rows):
    n = len(rows)
    if h.mode == "real":
        import numpy as np
        return np.array([[float(x) for x in r] for r in rows])
    flat = h.arr([x for r in rows for x in r])
    return flat.reshape(n, n)


def build(h, kinds, frees=None):
    W = h.real("W", pos=True) if any(isgauss(k) for k in kinds) else None
    parts, allp, k0 = [], [], 0
    for i, k in enumerate(kinds):
        f = peakfn(h, k, W)
        pars = [h.real("p%d_%d" % (i, j)) for j in range(f.npars)]
        fr = None if frees is None else frees[k0:k0 + f.npars]
        k0 += f.npars
        parts.append(actualize(h, f, pars, fr))
        allp.append(pars)
    return h.cls("modelparts", "ModelParts")(parts), allp, W


def stored(h):
    kinds = h.p["kinds"]
    npar = {"gaussian": 3, "gaussianoverr": 3, "poly0": 1, "poly1": 2, "poly-1": 0, "const2": 2}
    N = sum(npar[k] for k in kinds)
    frees = list(h.choice("frees", h.p["frees"]))
    m, allp, W = build(h, kinds, frees)
    full = h.choice("full", [False, True])
    nf = N if full else sum(frees)
    V = symm(h, nf)
    cov = h.cls("modelcluster", "ModelCovariance")()
    U = h.cls("srmiseerrors", "SrMiseUndefinedCovarianceError")
    h.prove(h.raises(lambda: cov.getcovariance(0, 0), U) is not None, "undefined covariance is reported")
    h.prove(h.raises(lambda: cov.getcorrelation(0, 0), U) is not None, "undefined covariance is reported")
    h.prove(h.raises(lambda: cov.transform("internal", "pwa"), U) is not None, "undefined covariance is reported")
    cov.setcovariance(m, mat(h, V))
    flat = [(i, j) for i, ps in enumerate(allp) for j in range(len(ps))]
    where = list(range(N)) if full else [k for k in range(N) if frees[k]]
    E = [[0.0] * N for _ in range(N)]
    for a, k in enumerate(where):
        for b, l in enumerate(where):
            E[k][l] = V[a][b]
    for k in range(N):
        h.prove_eq(cov.getvalue(k), allp[flat[k][0]][flat[k][1]], "values by flat index")
        h.prove_eq(cov.getvalue(flat[k]), allp[flat[k][0]][flat[k][1]], "values by part and parameter")
        for l in range(N):
            h.prove_eq(cov.getcovariance(k, l), E[k][l], "covariances by flat index, zero for fixed parameters")
            h.prove_eq(cov.getcovariance(flat[k], flat[l]), E[k][l], "covariances by part and parameter")
            h.prove_eq(cov.getcovariance(flat[k], l), E[k][l], "covariances by part and parameter")
    for k in where:
        h.assume(E[k][k] > 0)
    for k in range(N):
        s = h.sqrt(E[k][k]) if k in where else 0.0
        h.prove_eq(cov.getuncertainty(k), s, "uncertainty is the square root of the variance")
        h.prove_eq(cov.getuncertainty(flat[k]), s, "uncertainty is the square root of the variance")
        v, u = cov.get(flat[k])
        h.prove_eq(v, allp[flat[k][0]][flat[k][1]], "value with uncertainty")
        h.prove_eq(u, s, "value with uncertainty")
        for l in range(N):
            c = E[k][l] / (h.sqrt(E[k][k]) * h.sqrt(E[l][l])) if k in where and l in where else 0.0
            h.prove_eq(cov.getcorrelation(k, l), c, "correlation")
            h.prove_eq(cov.getcorrelation(flat[k], flat[l]), c, "correlation")
    # the stored model is independent
    if N:
        m[0].pars[0] = m[0].pars[0] + 1.0
        h.prove_eq(cov.getvalue(0), allp[0][0], "the covariance keeps its own copy of the model")
    cov.clear()
    h.prove(h.raises(lambda: cov.getcovariance(0, 0), U) is not None, "a cleared covariance is undefined")


def reused(h):
    """The same object holds the covariance of the last model only."""
    V = symm(h, 3)
    cov = h.cls("modelcluster", "ModelCovariance")()
    a, pa, _ = build(h, ["poly0", "const2"])
    cov.setcovariance(a, mat(h, V))
    U = symm(h, 2, "u")
    c = h.reals("c", 2)
    b = h.cls("modelparts", "ModelParts")([actualize(h, peakfn(h, "poly1"), c)])
    cov.setcovariance(b, mat(h, U))
    for i in range(2):
        h.prove_eq(cov.getvalue((0, i)), c[i], "a new covariance replaces the old one")
        for j in range(2):
            h.prove_eq(cov.getcovariance((0, i), (0, j)), U[i][j], "a new covariance replaces the old one")


def shapes(h):
    m, allp, _ = build(h, ["poly0", "const2"], [True, False, True])
    n, k = h.p["n"], h.p["k"]
    cov = h.cls("modelcluster", "ModelCovariance")()
    x = [[h.real("v%d_%d" % (i, j)) for j in range(k)] for i in range(n)]
    if h.mode == "real":
        import numpy as np
        M = np.array(x)
    else:
        M = h.arr([v for r in x for v in r]).reshape(n, k)
    good = n == k and n in (2, 3)
    h.prove((h.raises(lambda: cov.setcovariance(m, M), ValueError) is None) == good, "matrices of other sizes are refused")


def warned(h):
    """Exactly the pairs correlated beyond the threshold are listed."""
    m, allp, _ = build(h, ["poly0", "const2"], list(h.choice("frees", [(True, True, True), (True, False, True)])))
    nf = sum(sum(int(x) for x in p.free) for p in m)
    V = symm(h, nf)
    cov = h.cls("modelcluster", "ModelCovariance")()
    cov.setcovariance(m, mat(h, V))
    t = h.real("t", lo=0, hi=1)
    for i in range(nf):
        h.assume(V[i][i] > 0)
    res = cov.correlationwarning(t)
    h.prove(len(res) == len({(tuple(a), tuple(b)) for a, b, _ in res}), "no pair twice")
    got = {(tuple(a), tuple(b)): c for a, b, c in res}
    flat = [(0, 0), (1, 0), (1, 1)]
    for i in range(3):
        for j in range(3):
            if i >= j:
                h.prove((flat[i], flat[j]) not in got, "each pair once")
                continue
            c = cov.getcorrelation(i, j)
            if (flat[i], flat[j]) in got:
                h.prove(h.andb(abs(c) > t, h.eq(c, got[flat[i], flat[j]])), "listed pairs are beyond the threshold")
            else:
                h.prove(h.orb(abs(c) <= t, c == 0), "pairs beyond the threshold are listed")


def transform(h):
    """V becomes G V G^T with G the derivative of the conversion."""
    kinds, a, b = h.p["kinds"], h.p["a"], h.p["b"]
    W = h.real("W", pos=True)
    parts, src, fns = [], [], []
    for i, k in enumerate(kinds):
        f = peakfn(h, k, W if isgauss(k) else None)
        if isgauss(k):
            pos, area = h.real("pos%d" % i), h.real("area%d" % i, pos=True)
            if a == "internal":
                w = h.real("ang%d" % i)
                h.assume(w > -h.pi / 2)
                h.assume(w < h.pi / 2)
                h.assume(h.sin(w) > -1)
                h.assume(h.sin(w) < 1)
            else:
                w = h.real("w%d" % i, pos=True)
                h.assume(w * (2 * h.sqrt(2 * h.ln2) if a == "mu_sigma_area" else 1) < W)
                h.hint_sqrt(w)
                h.hint_sqrt(w * 2 * h.sqrt(2 * h.ln2))
                h.hint_sqrt(w / (2 * h.sqrt(2 * h.ln2)))
            pars = [pos, w, area]
        else:
            pars = [h.real("c%d_%d" % (i, j)) for j in range(f.npars)]
        src.append(pars)
        fns.append(f)
        parts.append(actualize(h, f, pars))
    m = h.cls("modelparts", "ModelParts")(parts)
    N = sum(len(p) for p in src)
    V = symm(h, N)
    cov = h.cls("modelcluster", "ModelCovariance")()
    cov.setcovariance(m, mat(h, V))
    sel = h.choice("parts", h.p["parts"])
    kw = {} if sel is None else {"parts": sel}
    touched = {None: list(range(len(kinds))), "peaks": list(range(len(kinds) - 1)), "baseline": [len(kinds) - 1]}.get(sel if not isinstance(sel, (list, tuple)) else 0, sel)
    G = [[1.0 if i == j else 0.0 for j in range(N)] for i in range(N)]
    k0 = 0
    want = []
    for i, (k, pars, f) in enumerate(zip(kinds, src, fns)):
        new = pars
        if i in touched and isgauss(k):
            new = list(f.transform_parameters(h.arr(pars), a, b))
            for q in range(3):
                d = h.deriv(lambda *p: f.transform_parameters(h.arr(list(p)), a, b), pars, q)
                for p in range(3):
                    G[k0 + p][k0 + q] = d[p]
        want += list(new)
        k0 += len(pars)
    cov.transform(a, b, **kw)
    for i in range(N):
        h.prove_eq(cov.getvalue(i), want[i], "parameter values are converted with the covariance, in the selected parts")
        for j in range(N):
            e = 0.0
            for p in range(N):
                for q in range(N):
                    if _zero(G[i][p]) or _zero(G[j][q]):
                        continue
                    e = e + G[i][p] * V[p][q] * G[j][q]
            h.prove_deriv(cov.getcovariance(i, j), e, "covariance becomes G V G^T, in the selected parts")


def _zero(x):
    return isinstance(x, float) and x == 0.0


def fitted(h):
    """The covariance after a fit is the solver's times SSR/dof."""
    import scipy.optimize
    kinds, n = h.p["kinds"], h.p["n"]
    frees = list(h.choice("frees", h.p["frees"]))
    m, allp, _ = build(h, kinds, frees)
    nf = sum(frees)
    r, y, e = h.array("r", n), h.array("y", n), h.array("e", n, pos=True)
    s = h.choice("range", h.p["slices"])
    ins = inrange(s, n)
    new = h.reals("new", nf)
    V = symm(h, nf)
    mode = h.choice("mode", ["ok", "singular"])

    def leastsq(func, x0, args=(), **kw):
        h.prove_eq(x0, h.arr([p for q, fr in zip([x for a in allp for x in a], frees) for p in [q] if fr]), "the fit starts at the present values")
        fv = func(h.arr(new), *args)
        return h.arr(new), (mat(h, V) if mode == "ok" else None), {"fvec": fv}, "", 1
    h.stub(scipy.optimize.leastsq, leastsq)
    cov = h.cls("modelcluster", "ModelCovariance")()
    if nf >= len(ins):
        E = h.cls("srmiseerrors", "SrMiseFitError")
        h.prove(h.raises(lambda: m.fit(r, y, e, mkslice(s), cov=cov), E) is not None, "more parameters than points are refused")
        return
    m.fit(r, y, e, mkslice(s), cov=cov, cov_format="internal")
    if mode != "ok":
        U = h.cls("srmiseerrors", "SrMiseUndefinedCovarianceError")
        h.prove(h.raises(lambda: cov.getcovariance(0, 0), U) is not None, "a singular fit has no covariance")
        return
    v = m.value(r, mkslice(s))
    chi = 0.0
    for i in ins:
        chi = chi + ((y[i] - v[i]) / e[i]) ** 2
    where = [k for k in range(len(frees)) if frees[k]]
    for a in range(len(frees)):
        for b in range(len(frees)):
            w = 0.0
            if a in where and b in where:
                w = V[where.index(a)][where.index(b)] * chi / (len(ins) - nf)
            h.prove_eq(cov.getcovariance(a, b), w, "fit covariance is the solver's times chi-square over degrees of freedom")


def scenarios(tier):
    q = tier == "quick"
    T = lambda n: [f for f in itertools.product([True, False], repeat=n) if any(f)]
    some = lambda n: [f for i, f in enumerate(T(n)) if i % 5 == 0 or i in (0, len(T(n)) - 1)]
    out = []
    for kinds, n in [(["poly1"], 2), (["const2", "poly0"], 3), (["gaussian", "poly0"], 4), (["poly0", "poly-1", "const2"], 3),
                     (["gaussian", "gaussianoverr"], 6)]:
        fr = T(n) if (n <= 4 or not q) else some(n)
        out.append(("stored-" + "+".join(kinds), "stored", {"kinds": kinds, "frees": fr}, {"weight": 4, "max_validate": 60}))
    out.append(("reused", "reused", {}, {}))
    for n, k in [(1, 1), (2, 2), (3, 3), (4, 4), (2, 3), (3, 2), (1, 3)]:
        out.append(("shape-%dx%d" % (n, k), "shapes", {"n": n, "k": k}, {}))
    out.append(("warned", "warned", {}, {"max_validate": 60}))
    fm = ["internal", "pwa", "mu_sigma_area"]
    for k in ["gaussian", "gaussianoverr"]:
        for a in fm:
            for b in fm:
                if a != b:
                    out.append(("transform-%s-%s-%s" % (k, a, b), "transform",
                                {"kinds": [k, "poly0"], "a": a, "b": b, "parts": [None, "peaks", "baseline", [0], [1], []]}, {"weight": 3}))
    out.append(("transform-2peaks", "transform", {"kinds": ["gaussian", "gaussian", "poly1"], "a": "internal", "b": "pwa",
                                                  "parts": [None, "peaks", "baseline", [1], [0, 2]]}, {"weight": 5}))
    out.append(("transform-2peaks-back", "transform", {"kinds": ["gaussian", "gaussianoverr", "poly-1"] if False else ["gaussian", "gaussianoverr", "poly0"], "a": "pwa", "b": "internal",
                                                       "parts": [None, "peaks", [0]]}, {"weight": 5}))
    n = 4 if q else 5
    sl = [None, (0, n - 1), (1, n)] + ([] if q else slices(n)[1:12])
    out.append(("fit-poly1", "fitted", {"kinds": ["poly1"], "n": n, "frees": T(2), "slices": sl}, {"weight": 4}))
    out.append(("fit-poly0+const2", "fitted", {"kinds": ["poly0", "const2"], "n": n, "frees": T(3), "slices": sl}, {"weight": 6}))
    return out
