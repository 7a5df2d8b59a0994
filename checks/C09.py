"""Free parameters, access, copies and sorting of model parts."""
import itertools

from checks.funcs import *  # noqa: F401,F403

FUNCTIONS = ["modelparts.ModelPart.*", "modelparts.ModelParts.pack_freepars/unpack_freepars/npars/copy/__getitem__", "peaks.base.Peaks.sort/argsort",
             "peaks.base.PeakFunction.actualize", "baselines.base.BaselineFunction.actualize"]
BOUNDS = ("models of at most 3 parts (Gaussian, Gaussian/r, polynomials of degree -1..2, nanosphere, user-defined), every set of free parameters, "
          "all real parameters and vectors; groups of at most 4 (quick) / 5 (thorough) peaks for sorting")
NPAR = {"gaussian": 3, "gaussianoverr": 3, "poly-1": 0, "poly0": 1, "poly1": 2, "poly2": 3, "nano": 2, "const2": 2}


def build(h, kinds, frees, tag="p"):
    parts, allp, k0 = [], [], 0
    for i, k in enumerate(kinds):
        f = peakfn(h, k, 0.7)
        n = NPAR[k]
        pars = [h.real("%s%d_%d" % (tag, i, j)) for j in range(n)]
        parts.append(actualize(h, f, pars, None if frees is None else list(frees[k0:k0 + n])))
        k0 += n
        allp.append(pars)
    return h.cls("modelparts", "ModelParts")(parts), allp


def flatpars(m):
    return [x for p in m for x in list(p.pars)]


def packing(h):
    kinds = h.p["kinds"]
    N = sum(NPAR[k] for k in kinds)
    frees = h.choice("frees", h.p["frees"])
    m, allp = build(h, kinds, frees)
    flat = [x for ps in allp for x in ps]
    fr = [True] * N if frees is None else list(frees)
    idx = [k for k in range(N) if fr[k]]
    h.prove(m.npars() == N and m.npars(True) == N and m.npars(count_fixed=False) == len(idx), "parameter counts")
    h.prove(len(m) == len(kinds) and all(len(p) == NPAR[k] for p, k in zip(m, kinds)), "parameter counts")
    v = m.unpack_freepars()
    h.prove_eq(v, h.arr([flat[k] for k in idx]), "the vector lists the free parameters in model order")
    h.prove_eq(h.arr(flatpars(m)), h.arr(flat), "listing changes nothing")
    new = [h.real("n%d" % k) for k in idx]
    form = h.choice("form", ["array", "list"])
    m.pack_freepars(h.arr(new) if form == "array" else list(new))
    want = list(flat)
    for k, x in zip(idx, new):
        want[k] = x
    h.prove_eq(h.arr(flatpars(m)), h.arr(want), "writing back sets exactly the free parameters")
    h.prove([bool(b) for p in m for b in p.free] == fr, "free flags unchanged")
    h.prove_eq(m.unpack_freepars(), h.arr(new), "the vector reads back as written")
    if idx:
        bad = list(new)
        bad[h.choice("at", list(range(len(bad))))] = float("nan")
        h.prove(h.raises(lambda: m.pack_freepars(h.arr([x + 1 for x in bad])), ValueError) is not None, "vectors with non-numbers are rejected")
        h.prove_eq(h.arr(flatpars(m)), h.arr(want), "a rejected vector changes nothing")
    v = m.unpack_freepars()
    if idx:
        v[0] = v[0] + 1
        h.prove_eq(h.arr(flatpars(m)), h.arr(want), "the vector is independent of the model")


def partupdate(h):
    """One part takes its share of a longer vector."""
    kind = h.p["kind"]
    n = NPAR[kind]
    free = list(h.choice("free", list(itertools.product([True, False], repeat=n))))
    f = peakfn(h, kind, 0.7)
    pars = [h.real("p%d" % j) for j in range(n)]
    part = actualize(h, f, pars, free)
    k = sum(free)
    v = [h.real("v%d" % i) for i in range(k + 2)]
    h.prove_eq(part.compress(), h.arr([p for p, b in zip(pars, free) if b]), "free parameters of a part")
    h.prove(part.npars() == n and part.npars(False) == k, "parameter counts")
    h.prove(part.update(h.arr(v)) == k, "the number of values taken is returned")
    it = iter(v)
    h.prove_eq(part.pars, h.arr([next(it) if b else p for p, b in zip(pars, free)]), "exactly the free parameters are set")


def access(h):
    kind = h.p["kind"]
    f = peakfn(h, kind, 0.7)
    n = NPAR[kind]
    pars = [h.real("p%d" % j) for j in range(n)]
    free = [h.choice("f%d" % j, [True, False]) for j in range(n)]
    part = actualize(h, f, pars, free)
    h.prove(sorted(f.parameterdict.values()) == list(range(n)), "every parameter has a name")
    h.prove(f.npars == n and len(part) == n, "parameter counts")
    for name, i in f.parameterdict.items():
        h.prove_eq(part[name], pars[i], "parameters by name")
        h.prove_eq(part[i], pars[i], "parameters by index")
        h.prove(bool(part.getfree(name)) == free[i] and bool(part.getfree(i)) == free[i], "free flags by name and index")
    for name, i in f.parameterdict.items():
        by = h.choice("by%d" % i, [name, i])
        v = h.choice("to%d" % i, [True, False])
        part.setfree(by, v)
        free[i] = v
        h.prove([bool(b) for b in part.free] == free, "exactly the named flag is set")
    h.prove_eq(part.pars, h.arr(pars), "flags do not touch parameters")
    h.prove(part.owner() is f, "owner")


def build1(h):
    """Construction from lists, arrays and integers; wrong lengths are rejected."""
    kind = h.p["kind"]
    f = peakfn(h, kind, 0.7)
    n = NPAR[kind]
    cls = type(actualize(h, f, [1.0] * n))
    pars = [h.real("p%d" % j, lo=-1.5, hi=1.5) if j == 1 and isgauss(kind) else h.real("p%d" % j) for j in range(n)]
    src = h.arr(pars)
    flags = [True] * n
    part = cls(f, src, flags)
    if n:
        src[0] = src[0] + 1
        flags[0] = False
        h.prove_eq(part.pars, h.arr(pars), "a part is independent of the sequence it was made from")
        h.prove(all(bool(b) for b in part.free), "a part is independent of the flags it was made from")
        part2 = cls(f, list(range(1, n + 1)))
        v = [h.real("v%d" % j) for j in range(n)]
        part2.update(h.arr(v))
        h.prove_eq(part2.pars, h.arr(v), "parts made from integers keep fractional values")
        for bad in (pars[:-1], pars + [1.0]):
            h.prove(h.raises(lambda: cls(f, h.arr(bad)), ValueError) is not None, "wrong-length parameters are rejected")
            h.prove(h.raises(lambda: cls(f, h.arr(pars), [True] * len(bad)), ValueError) is not None, "wrong-length flags are rejected")
    h.prove(len(cls(f, h.arr(pars)).free) == n and all(bool(b) for b in cls(f, h.arr(pars)).free), "parameters are free unless told otherwise")
    rem, st = h.choice("removable", [True, False]), h.choice("static", [True, False])
    p = f.actualize(pars, "internal", None, rem, st) if h.p["peak"] else f.actualize(pars, "internal", None, rem, st)
    h.prove(p.removable == rem and p.static_owner == st and p.owner() is f, "flags are stored")
    # owners
    E = h.cls("srmiseerrors", "SrMiseStaticOwnerError")
    g = peakfn(h, kind, 0.9) if kind != "const2" else custom(h)
    o = peakfn(h, "poly%d" % (n + 1))
    if st:
        h.prove(h.raises(lambda: p.changeowner(g), E) is not None, "static owners cannot be replaced")
        h.prove(p.owner() is f, "a refused owner is not taken")
        p.changeowner(f)
    else:
        p.changeowner(g)
        h.prove(p.owner() is g, "the owner is replaced")
        p.changeowner(f)
    h.prove(h.raises(lambda: p.changeowner(o), E) is not None, "owners with another number of parameters are rejected")
    h.prove(p.owner() is f, "a refused owner is not taken")


def copies(h):
    kinds = h.p["kinds"]
    N = sum(NPAR[k] for k in kinds)
    frees = h.choice("frees", h.p["frees"])
    m, allp = build(h, kinds, frees)
    for i, p in enumerate(m):
        p.removable = h.choice("rem%d" % i, [True, False])
        p.static_owner = h.choice("stat%d" % i, [True, False])
    whole = h.choice("whole", [True, False])
    c = m.copy() if whole else [p.copy() for p in m]
    h.prove(len(c) == len(m), "copies have as many parts")
    if whole:
        h.prove(type(c) is type(m), "copies are of the same kind")
    flat = [x for ps in allp for x in ps]
    for p, d in zip(m, c):
        h.prove(type(p) is type(d) and p is not d and d.owner() is p.owner(), "copies are of the same kind and owner")
        h.prove(p == d and not p != d, "copies are equal")
        h.prove(d.removable == p.removable and d.static_owner == p.static_owner, "copies keep the flags")
        h.prove([bool(b) for b in d.free] == [bool(b) for b in p.free], "copies keep the free flags")
    h.prove_eq(h.arr(flatpars(c)), h.arr(flat), "copies keep the parameters")
    for d in c:
        for j in range(len(d)):
            d.pars[j] = d.pars[j] + 1
            d.setfree(j, not bool(d.free[j]))
        d.removable = not d.removable
    h.prove_eq(h.arr(flatpars(m)), h.arr(flat), "changing a copy leaves the original")
    for p, d in zip(m, c):
        h.prove(all(bool(a) != bool(b) for a, b in zip(p.free, d.free)) and p.removable != d.removable, "changing a copy leaves the original")


def equality(h):
    kind = h.p["kind"]
    n = NPAR[kind]
    f = peakfn(h, kind, 0.7)
    pars = [h.real("p%d" % j) for j in range(n)]
    other = [h.real("q%d" % j) for j in range(n)]
    free = [h.choice("f%d" % j, [True, False]) for j in range(n)]
    what = h.choice("what", ["pars", "free", "removable", "owner", "type"])
    a = actualize(h, f, pars, free)
    b = actualize(h, f, pars, free)
    if what == "pars":
        b = actualize(h, f, other, free)
        same = h.andb(*[x == y for x, y in zip(pars, other)]) if n else True
        if bool(same):
            h.prove(bool(a == b) and not bool(a != b), "parts with equal parameters are equal")
        else:
            h.prove(not bool(a == b) and bool(a != b), "parts with different parameters differ")
        return
    if what == "free" and n:
        b.setfree(0, not free[0])
    elif what == "removable":
        b.removable = not b.removable
    elif what == "owner":
        b = actualize(h, peakfn(h, kind, 0.8) if kind != "const2" else custom(h), pars, free)
    elif what == "type":
        b = h.choice("o", [None, 3, "x"])
    else:
        return
    h.prove(not bool(a == b) and bool(a != b), "parts that differ are not equal")


def sorting(h):
    n = h.p["n"]
    f, g = peakfn(h, "gaussian", 0.7), peakfn(h, "gaussianoverr", 0.9)
    ps = []
    for i in range(n):
        ps.append(actualize(h, f if i % 2 == 0 else g, [h.real("x%d" % i), h.real("w%d" % i), h.real("a%d" % i)], [i % 2 == 0, True, False]))
        ps[-1].removable = i % 3 != 0
    peaks = h.cls("peaks.base", "Peaks")(ps)
    orig = [list(p.pars) for p in ps]
    key, j = h.choice("key", h.p["keys"])
    rev = h.choice("reverse", [False, True]) if h.p.get("reverse") else False
    order = list(peaks.argsort(key=key))
    h.prove(sorted(int(i) for i in order) == list(range(n)), "the order names every peak once")
    h.prove(all(a is b for a, b in zip(peaks, ps)), "asking for the order changes nothing")
    for a, b in zip(order[:-1], order[1:]):
        h.prove(orig[int(a)][j] <= orig[int(b)][j], "the order is increasing in the key")
    if rev:
        peaks.sort(reverse=True, key=key)
    elif key == "position" and h.choice("default", [False, True]):
        peaks.sort()
    else:
        peaks.sort(key=key)
    h.prove(len(peaks) == n and all(any(p is o for p in peaks) for o in ps), "sorting loses no peak")
    for o, pars in zip(ps, orig):
        h.prove_eq(o.pars, h.arr(pars), "sorting changes no peak")
    for a, b in zip(peaks[:-1], peaks[1:]):
        h.prove(a[j] >= b[j] if rev else a[j] <= b[j], "peaks are sorted by the key")


def slicing(h):
    n = h.p["n"]
    f = peakfn(h, "gaussian", 0.7)
    cls = h.cls(*h.p["cls"])
    parts = [actualize(h, f, [h.real("x%d" % i), 1.0, 1.0]) for i in range(n)]
    m = cls(parts)
    a, b = h.choice("a", list(range(-n - 1, n + 2))), h.choice("b", list(range(-n - 1, n + 2)))
    for got in (m[a:b], m[(a, b)]):
        want = parts[a:b]
        h.prove(type(got) is type(m) and len(got) == len(want) and all(x is y for x, y in zip(got, want)), "slices are models of the same parts")
    for i in range(n):
        h.prove(m[i] is parts[i] and m[i - n] is parts[i], "single parts")


def subsets(n, q):
    T = list(itertools.product([True, False], repeat=n))
    return [None] + (T if not q or n <= 4 else T[::3] + [T[-1]])


def scenarios(tier):
    q = tier == "quick"
    out = []
    layouts = [["gaussian"], ["poly-1"], ["gaussian", "poly1"], ["poly0", "gaussianoverr"], ["gaussian", "gaussianoverr"], ["nano", "const2"],
               ["gaussian", "poly-1", "nano"]]
    if not q:
        layouts += [["gaussian", "gaussian", "poly2"], ["gaussianoverr", "poly1", "const2"], ["poly2", "poly0", "poly-1"]]
    for ks in layouts:
        n = sum(NPAR[k] for k in ks)
        name = "+".join(ks)
        out.append(("packing-" + name, "packing", {"kinds": ks, "frees": subsets(n, q)}, {"weight": 2}))
        out.append(("copies-" + name, "copies", {"kinds": ks, "frees": subsets(n, q)[-5:]}, {"max_validate": 100}))
    for k in NPAR:
        out.append(("update-" + k, "partupdate", {"kind": k}, {}))
        out.append(("access-" + k, "access", {"kind": k}, {"max_validate": 100}))
        out.append(("construct-" + k, "build1", {"kind": k, "peak": isgauss(k)}, {}))
        out.append(("equality-" + k, "equality", {"kind": k}, {"max_validate": 100}))
    for n in range(0, 5 if q else 6):
        out.append(("sorting%d" % n, "sorting", {"n": n, "keys": [("position", 0), ("width", 1), (2, 2)] if n <= 3 else [("position", 0)], "reverse": n <= 4},
                    {"weight": n, "max_validate": 100}))
    for c in (("modelparts", "ModelParts"), ("peaks.base", "Peaks")):
        out.append(("slicing-" + c[1], "slicing", {"n": 3, "cls": c}, {}))
    return out
