"""Joining clusters, inserting and deleting peaks, cleaning, external peaks."""
import itertools

from checks.funcs import *  # noqa: F401,F403
from checks.C10 import evaluator

FUNCTIONS = ["modelcluster.ModelCluster.join_adjacent/replacepeaks/deletepeak/cleanfit/addexternalpeaks/change_slice", "peaks.base.Peaks.sort/argsort/match_at/copy"]
BOUNDS = ("clusters over at most 5 points with at most 2 (joins, thorough 3 in one; no baseline, a constant or a sloped one) / 3 (insertion, deletion, cleaning) peaks of constant height each, every slice pair, all real positions, heights, data and "
          "uncertainties, every set of removable flags; peaks scale exactly, or refuse to be scaled")


def block(h, k, scales=True):
    """Peaks of constant height, positive or not; k tells them apart."""
    PF = h.cls("peaks.base", "PeakFunction")
    E = h.cls("srmiseerrors", "SrMiseScalingError")

    class Block(PF):
        tag = k

        def __init__(self):
            PF.__init__(self, {"position": 0, "height": 1}, ["internal"], {"default_input": "internal", "default_output": "internal"}, {})

        def _transform_parametersraw(self, pars, in_format, out_format):
            return h.arr(list(pars))

        def _valueraw(self, pars, r):
            return pars[1] + r * 0.0

        def scale_at(self, pars, x, scale):
            if scale <= 0 or not scales:
                raise E("")
            return h.arr([pars[0], pars[1] * scale])
    return Block()


def peaksof(h, n, tag, k0=0, scales=None, lo=None, order=True):
    fs, ps = [], []
    for i in range(n):
        fs.append(block(h, k0 + i, True if scales is None else scales[i]))
        ps.append(actualize(h, fs[-1], [h.real("%sx%d" % (tag, i)), h.real("%sh%d" % (tag, i), lo=lo)]))
    if order:
        for a, b in zip(ps[:-1], ps[1:]):
            h.assume(a.pars[0] <= b.pars[0])
    return fs, ps


def tags(model):
    return [p.owner().tag for p in model]


def data(h, n):
    return h.increasing("r", n), h.array("y", n), h.array("e", n, pos=True)


def join(h):
    n1, n2, n = h.p["n1"], h.p["n2"], 5
    a, b, c = h.choice("at", h.p["at"])
    r, y, e = data(h, n)
    scales = [h.choice("scales%d" % i, [True, False]) if h.p["refuse"] else True for i in range(n1 + n2)]
    f1, p1 = peaksof(h, n1, "l", 0, scales[:n1], 0.5)
    f2, p2 = peaksof(h, n2, "r", n1, scales[n1:], 0.5)
    rem = [i == 1 for i in range(n1 + n2)]
    for p, v in zip(p1 + p2, rem):
        p.removable = v
    PS, MC = h.cls("peaks.base", "Peaks"), h.cls("modelcluster", "ModelCluster")
    base = h.choice("base", [None, "poly0", "poly1"] if n1 + n2 < 3 else [None, "poly1"])
    c0, m0 = h.real("c") if base else 0.0, 0.5 if base == "poly1" else 0.0
    bl = actualize(h, peakfn(h, base), [c0] if base == "poly0" else [m0, c0]) if base else None
    EM = evaluator(h, "aic")
    shared = block(h, 99)
    L = MC(PS(p1), bl, r, y, e, slice(a, b), EM, f1 + [shared])
    R = MC(PS(p2), bl, r, y, e, slice(b, c), EM, [shared] + f2)
    orig = [list(p.pars) for p in p1 + p2]
    swap = h.choice("swap", [False, True])
    J = MC.join_adjacent(R, L) if swap else MC.join_adjacent(L, R)
    # originals
    h.prove(tags(L.model) == list(range(n1)) and tags(R.model) == list(range(n1, n1 + n2)), "the originals keep their peaks")
    for p, o in zip(list(L.model) + list(R.model), orig):
        h.prove_eq(p.pars, h.arr(o), "the originals are untouched")
    h.prove(L.slice.indices(n)[:2] == (a, b) and R.slice.indices(n)[:2] == (b, c) and L.size == b - a and R.size == c - b, "the originals are untouched")
    # the new cluster
    h.prove(J.slice.indices(n) == (a, c, 1) and J.size == c - a, "the new cluster covers exactly both slices")
    h.prove_eq(J.r_cluster, r[a:c], "the new cluster covers exactly both slices")
    h.prove_eq(J.y_cluster, y[a:c], "the new cluster covers exactly both slices")
    h.prove_eq(J.error_cluster, e[a:c], "the new cluster covers exactly both slices")
    h.prove(J.r_data is r and J.y_data is y and J.y_error is e and J.error_method is EM, "the new cluster shares the data")
    h.prove((J.baseline is None) == (bl is None) and (bl is None or J.baseline == bl), "the baseline is shared")
    got = sorted(f.tag for f in J.peak_funcs)
    h.prove(got == list(range(n1 + n2)) + [99], "the peak functions are united")
    for p, q in zip(J.model[:-1], J.model[1:]):
        h.prove(p.pars[0] <= q.pars[0], "the peaks are in order of position")
    ts = tags(J.model)
    h.prove(len(set(ts)) == len(ts), "no peak is repeated")
    for p in J.model:
        t = p.owner().tag
        h.prove_eq(p.pars[0], orig[t][0], "peaks keep their position")
        h.prove(p.removable == rem[t] and all(bool(x) for x in p.free), "peaks keep their flags")
        h.prove(not any(p is o for o in p1 + p2), "the new cluster has its own peaks")
    bx = 0.5 * (r[b - 1] + r[b])
    missing = [t for t in range(n1 + n2) if t not in ts]
    if missing:
        h.prove(n1 > 0 and n2 > 0 and h.andb(*[orig[t][0] == bx for t in missing]), "only duplicates at the border are dropped")
        h.prove(h.orb(*[orig[t][0] == bx for t in ts]) if ts else False, "one peak at the border is kept")
        return
    if not (n1 and n2):
        for p in J.model:
            h.prove_eq(p.pars, h.arr(orig[p.owner().tag]), "peaks of one cluster alone are taken as they are")
        return
    target = 0.5 * (y[b - 1] + y[b]) - (m0 * bx + c0)
    if bool(target > 0) and all(scales):
        h.prove_eq(J.model.value(bx), target, "the peaks are matched to the data without baseline at the border")
        tot = sum([o[1] for o in orig], 0.0)
        for p in J.model:
            h.prove_eq(p.pars[1] * tot, orig[p.owner().tag][1] * target, "the peaks are scaled alike")
    elif not any(scales) or bool(target <= 0):
        for p in J.model:
            h.prove_eq(p.pars, h.arr(orig[p.owner().tag]), "peaks that cannot be matched are taken as they are")


def refuse(h):
    n = 5
    r, y, e = data(h, n)
    PS, MC = h.cls("peaks.base", "Peaks"), h.cls("modelcluster", "ModelCluster")
    f1, p1 = peaksof(h, 1, "l")
    f2, p2 = peaksof(h, 1, "r", 1)
    EM, EC = evaluator(h, "aic"), evaluator(h, "aicc")
    what = h.choice("what", ["r", "y", "e", "method", "baseline", "nobaseline", "gap", "overlap", "same"])
    pf = peakfn(h, "poly0")
    c0, c1 = h.real("c0"), h.real("c1")
    b1 = actualize(h, pf, [c0])
    b2 = actualize(h, pf, [c0])
    s1, s2 = (0, 2), (2, 5)
    if what == "baseline":
        b2 = actualize(h, pf, [c1])
        h.assume(c0 != c1)
    elif what == "nobaseline":
        b2 = None
    elif what in ("gap", "overlap", "same"):
        s1, s2 = h.choice("slices", {"gap": [((0, 1), (2, 5)), ((0, 2), (4, 5))], "overlap": [((0, 3), (2, 5)), ((0, 5), (2, 3)), ((0, 3), (0, 2))],
                                     "same": [((1, 3), (1, 3)), ((0, 5), (0, 5))]}[what])
    L = MC(PS(p1), b1, r, y, e, slice(*s1), EM, f1)
    R = MC(PS(p2), b2, r[:] if what != "r" else h.arr([v for v in r]), y if what != "y" else h.arr([v for v in y]),
           e if what != "e" else h.arr([v for v in e]), slice(*s2), EM if what != "method" else EC, f2)
    if what != "r":
        R.r_data = r
    swap = h.choice("swap", [False, True])
    x = h.raises(lambda: MC.join_adjacent(R, L) if swap else MC.join_adjacent(L, R), ValueError)
    h.prove(x is not None, "clusters that cannot be joined are refused")
    h.prove(tags(L.model) == [0] and tags(R.model) == [1], "the originals keep their peaks")


def cluster(h, n, ps, fs, sl=None, base=None):
    r, y, e = data(h, n)
    return h.cls("modelcluster", "ModelCluster")(h.cls("peaks.base", "Peaks")(ps), base, r, y, e, sl or slice(0, n), evaluator(h, "aic"), fs), r, y, e


def insert(h):
    n0, n1 = h.p["n0"], h.p["n1"]
    fs, ps = peaksof(h, n0, "o")
    gs, qs = peaksof(h, n1, "n", n0, order=False)
    rem = [h.choice("rem%d" % i, [True, False]) for i in range(n0)]
    for p, v in zip(ps, rem):
        p.removable = v
    mc, r, y, e = cluster(h, 2, ps, fs)
    orig = [list(p.pars) for p in ps + qs]
    mode = h.choice("mode", ["plain", "slice", "delete"])
    new = h.cls("peaks.base", "Peaks")(qs) if h.choice("type", ["Peaks", "list"]) == "Peaks" else qs
    gone = []
    if mode == "plain":
        x = h.raises(lambda: mc.replacepeaks(new), ValueError)
    elif mode == "slice":
        s = h.choice("slice", [(a, b) for a in range(n0 + 1) for b in range(a, n0 + 1)] + ([(None, None), (-1, None)] if n0 else []))
        gone = list(range(n0))[slice(*s)]
        x = h.raises(lambda: mc.replacepeaks(new, slice(*s)), ValueError)
    else:
        if not n0:
            return
        k = h.choice("k", list(range(n0)))
        gone, new = [k], []
        x = h.raises(lambda: mc.deletepeak(k), ValueError)
    bad = any(not rem[k] for k in gone)
    h.prove((x is not None) == bad, "peaks that are not removable are never removed, others on request")
    want = list(range(n0)) if bad else [k for k in range(n0) if k not in gone] + [n0 + i for i in range(len(new))]
    h.prove(sorted(tags(mc.model)) == want, "exactly the given peaks are removed and inserted")
    for p in mc.model:
        h.prove_eq(p.pars, h.arr(orig[p.owner().tag]), "inserting and deleting changes no peak")
    if bad:
        h.prove(tags(mc.model) == want, "a refused deletion changes nothing")
    for p, q in zip(mc.model[:-1], mc.model[1:]):
        h.prove(p.pars[0] <= q.pars[0], "the peaks stay in order of position")


def clean(h):
    n, k = h.p["n"], h.p["k"]
    sl = h.choice("slice", h.p["slices"])
    fs, ps = peaksof(h, k, "p")
    rem = [h.choice("rem%d" % i, [True, False]) for i in range(k)]
    nan = h.choice("nan", h.p["nan"])
    for i, (p, v) in enumerate(zip(ps, rem)):
        p.removable = v
        if i in nan:
            p.pars[1] = float("nan")
    mc, r, y, e = cluster(h, n, ps, fs, slice(*sl))
    orig = [list(p.pars) for p in ps]
    got = mc.cleanfit()
    keep = []
    for i in range(k):
        if i in nan:
            continue
        x, v = orig[i]
        small = h.andb(*[v < e[j] for j in range(*sl)])
        if rem[i] and bool(h.orb(x < r[sl[0]], x > r[sl[1] - 1])) and bool(small):
            continue
        keep.append(i)
    h.prove(tags(mc.model) == keep, "cleaning removes exactly the removable peaks outside that contribute nothing, and those without numbers")
    h.prove(got == k - len(keep), "the number of removed peaks is returned")
    for p in mc.model:
        h.prove_eq(p.pars, h.arr(orig[p.owner().tag]), "cleaning changes no peak")


def external(h):
    n = 3
    n0, n1 = h.p["n0"], h.p["n1"]
    fs, ps = peaksof(h, n0, "o")
    gs, qs = peaksof(h, n1, "n", n0)
    sl = h.choice("slice", [(0, 3), (1, 3), (0, 2)])
    c = h.real("c") if h.p.get("base") else None
    mc, r, y, e = cluster(h, n, ps, fs, slice(*sl), None if c is None else actualize(h, peakfn(h, "poly0"), [c]))
    y0 = list(y)
    was = bool(mc.never_fit)
    other = h.cls("modelcluster", "ModelCluster")(None, None, r, y, e, slice(0, n), mc.error_method, fs)
    res = list(mc.residual())
    mc.addexternalpeaks(h.cls("peaks.base", "Peaks")(qs))
    top = sum([q.pars[1] for q in qs], 0.0)
    h.prove(sorted(tags(mc.model)) == list(range(n0 + n1)), "external peaks are added")
    for p, q in zip(mc.model[:-1], mc.model[1:]):
        h.prove(p.pars[0] <= q.pars[0], "the peaks stay in order of position")
    h.prove_eq(mc.y_data, h.arr([v + top for v in y0]), "the data are raised by the external peaks")
    h.prove_eq(mc.y_cluster, h.arr([v + top for v in y0])[sl[0]:sl[1]], "the data are raised by the external peaks")
    h.prove_eq(mc.residual(), h.arr(res), "external peaks leave the residual")
    if bool(mc.never_fit):
        for v, b, d in zip(mc.y_cluster, mc.valuebl(), mc.error_cluster):
            h.prove(v - b < d, "a cluster raised above the uncertainties is fit")
    elif was:
        h.prove(h.orb(*[v + top - (0.0 if c is None else c) >= d for v, d in zip(y0[slice(*sl)], mc.error_cluster)]), "a cluster still below the uncertainties is not fit")
    if c is not None:
        h.prove_eq(mc.valuebl(), h.arr([c] * (sl[1] - sl[0])), "the baseline is left as it is")
    h.prove_eq(y, h.arr(y0), "data shared with other clusters stay")
    h.prove_eq(other.y_data, h.arr(y0), "data shared with other clusters stay")
    h.prove_eq(other.y_cluster, h.arr(y0), "data shared with other clusters stay")


def scenarios(tier):
    q = tier == "quick"
    out = []
    at = [(0, 2, 5), (1, 2, 3), (1, 3, 4)] if q else [(a, b, c) for a in range(4) for b in range(a + 1, 5) for c in range(b + 1, 6)]
    for n1, n2 in [(0, 0), (1, 0), (0, 2), (1, 1), (2, 1), (1, 2)] + ([] if q else [(2, 2)]):
        big = n1 + n2 > 2
        out.append(("join%d%d" % (n1, n2), "join", {"n1": n1, "n2": n2, "at": at[:1] if big and q else at, "refuse": n1 + n2 == 2 and n1 == 1},
                    {"weight": 2 + n1 + n2, "max_validate": 100}))
    out.append(("refuse", "refuse", {}, {"max_validate": 100}))
    for n0, n1 in [(0, 1), (1, 1), (2, 1), (3, 0), (2, 0), (1, 2)] + ([] if q else [(3, 1), (2, 2)]):
        out.append(("insert%d%d" % (n0, n1), "insert", {"n0": n0, "n1": n1}, {"weight": 2, "max_validate": 100}))
    for k in range(0, 4):
        out.append(("clean%d" % k, "clean", {"n": 3, "k": k, "slices": [(0, 3), (1, 2), (1, 3)] if k < 3 else [(1, 3)], "nan": [[]] if k == 3 and q else [[]] + [[i] for i in range(k)]},
                    {"weight": 2 * k, "max_validate": 100}))
    for n0, n1 in [(0, 1), (1, 1), (0, 2), (2, 1)]:
        out.append(("external%d%d" % (n0, n1), "external", {"n0": n0, "n1": n1}, {}))
        if n0 + n1 < 3:
            out.append(("external-base%d%d" % (n0, n1), "external", {"n0": n0, "n1": n1, "base": 1}, {}))
    return out
