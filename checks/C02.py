"""Adjacent clusters, combining them, data slices and boundaries."""
from checks.C01 import configs

FUNCTIONS = ["dataclusters.DataClusters.find_adjacent_clusters/combine_clusters/cut/cluster_is_full/"
             "cluster_boundaries"]
BOUNDS = ("m<=5 (quick) / m<=7 (thorough) clusters with arbitrary symbolic end points among 30 data points; up to "
          "two groups of <=3 arbitrary cluster indices; boundaries on n<=3/4 points with arbitrary coordinates")


def symclusters(h, m, n):
    """m ordered disjoint clusters with arbitrary (symbolic) end points among n data points."""
    cl = []
    prev = None
    for i in range(m):
        a, b = h.int("a%d" % i, 0, n - 1), h.int("b%d" % i, 0, n - 1)
        h.assume(a <= b)
        if prev is not None:
            h.assume(prev < a)
        prev = b
        cl.append([a, b])
    return cl


def _mk(h, n, cl, x=None, y=None):
    DC = h.cls("dataclusters", "DataClusters")
    x = h.arr([float(i) for i in range(n)]) if x is None else x
    y = h.arr([float(i) for i in range(n)]) if y is None else y
    dc = DC(x, y, 1.0)
    dc.clusters = h.iarr(cl)
    return dc


def ints(a):
    return [[int(i) for i in r] for r in a]


def touching(h, cl):
    """Decided by the solver on this path: which neighbours have no gap."""
    return [bool(h.eq(cl[i + 1][0], cl[i][1] + 1)) for i in range(len(cl) - 1)]


def runs(tch):
    out, i, m = [], 0, len(tch) + 1
    while i < m:
        j = i
        while j < m - 1 and tch[j]:
            j += 1
        if j > i:
            out.append(list(range(i, j + 1)))
        i = j + 1
    return out


def same_rows(h, got, want, label):
    h.prove(len(got) == len(want), label)
    for g, w in zip(got, want):
        h.prove(len(g) == 2, label)
        h.prove_eq(g[0], w[0], label)
        h.prove_eq(g[1], w[1], label)


def adjacent(h):
    m, n = h.p["m"], h.p["n"]
    cl = symclusters(h, m, n)
    dc = _mk(h, n, cl)
    got = dc.find_adjacent_clusters()
    tch = touching(h, cl)
    want = runs(tch)
    h.prove(ints(got) == want, "adjacent clusters are exactly the maximal runs without gaps")
    same_rows(h, dc.clusters, cl, "asking for adjacent clusters changes nothing")
    h.observe("adj", str(want))
    if len(want):
        dc.combine_clusters(got)
        exp, i = [], 0
        while i < m:
            r = [w for w in want if w[0] == i]
            if r:
                exp.append([cl[i][0], cl[r[0][-1]][1]])
                i = r[0][-1] + 1
            else:
                exp.append(cl[i])
                i += 1
        same_rows(h, dc.clusters, exp, "combining adjacent clusters gives their union and keeps the others")
        h.prove(len(dc.find_adjacent_clusters()) == 0, "no adjacent clusters remain")


def slices(h):
    m, n = h.p["m"], h.p["n"]
    cl = symclusters(h, m, n)
    dc = _mk(h, n, cl)
    many = dc.cut(list(range(m)))
    h.prove(len(many) == m, "slices of several clusters")
    for i, (a, b) in enumerate(cl):
        for s, lab in ((dc.cut(i), "a cluster's slice selects exactly its points"),
                       (many[i], "slices of several clusters")):
            h.prove_eq(s.start, a, lab)
            h.prove_eq(s.stop, b + 1, lab)
            h.prove(s.step in (None, 1), lab)
        left = cl[i - 1][1] + 1 if i else 0
        right = cl[i + 1][0] - 1 if i + 1 < m else n - 1
        full = dc.cluster_is_full(i)
        h.prove(h.eq(full, h.andb(h.eq(left, a), h.eq(right, b))) if h.mode == "sym" else
                bool(full) == (left == a and right == b),
                "a cluster is full iff it borders its neighbours or the ends of the data")
    same_rows(h, dc.clusters, cl, "asking for slices changes nothing")


def groups(h):
    m, n = h.p["m"], h.p["n"]
    cl = symclusters(h, m, n)
    ng = h.choice("ng", [1, 2])
    comb = []
    for g in range(ng):
        k = h.choice("m%d" % g, [1, 2, 3] if g == 0 else [2])
        comb.append([h.choice("g%d.%d" % (g, j), list(range(m))) for j in range(k)])
    dc = _mk(h, n, cl)
    r = h.raises(lambda: dc.combine_clusters(comb), ValueError)
    flat = [i for c in comb for i in c]
    ok = len(set(flat)) == len(flat)
    for c in comb:
        for a, b in zip(c, c[1:]):
            ok = h.andb(ok, b == a + 1, h.eq(cl[b][0], cl[a][1] + 1))
    if r is None:
        h.prove(ok, "repeated, non-contiguous, decreasing or gapped groups are rejected")
        drop = {i for c in comb for i in c[1:]}
        ends = {c[0]: cl[c[-1]][1] for c in comb}
        exp = [[a, ends.get(i, b)] for i, (a, b) in enumerate(cl) if i not in drop]
        same_rows(h, dc.clusters, exp, "combining gives the union of each group and keeps the others")
    else:
        h.prove(h.notb(ok), "contiguous groups without gaps are accepted")
        same_rows(h, dc.clusters, cl, "a rejected request changes nothing")


def boundaries(h):
    n = h.p["n"]
    cl = configs(h, n)
    x = h.increasing("x", n)
    y = h.array("y", n)
    dc = _mk(h, n, cl, x, y)
    got = dc.cluster_boundaries()

    def mid(i, j):
        if i < 0:
            i = j
        if j >= n:
            j = i
        return ((x[i] + x[j]) / 2.0, (y[i] + y[j]) / 2.0)
    want, seen = [], set()
    for a, b in cl:
        for i, j in ((a - 1, a), (b, b + 1)):
            if (i, j) not in seen:
                seen.add((i, j))
                want.append(mid(i, j))
    # a single-point cluster at an end of the data has coinciding borders
    uniq = []
    for w in want:
        if not any(bool(h.andb(h.eq(w[0], u[0]), h.eq(w[1], u[1]))) for u in uniq):
            uniq.append(w)
    h.prove(len(got) == len(uniq), "one boundary per cluster border")
    for g, w in zip(got, uniq):
        h.prove_eq(g[0], w[0], "boundary position is midway between neighbouring points")
        h.prove_eq(g[1], w[1], "boundary height is midway between neighbouring points")


def scenarios(tier):
    q = tier == "quick"
    out = []
    for m in range(1, 6 if q else 8):
        out.append(("adjacent-m%d" % m, "adjacent", {"m": m, "n": 30}, {"weight": 2 ** m}))
        out.append(("slices-m%d" % m, "slices", {"m": m, "n": 30}, {"weight": 2 ** m}))
    for m in range(1, 5 if q else 6):
        out.append(("groups-m%d" % m, "groups", {"m": m, "n": 30}, {"weight": 5 ** m, "max_validate": 200}))
    for n in range(1, 4 if q else 5):
        out.append(("boundaries-n%d" % n, "boundaries", {"n": n}, {"weight": 3 ** n, "max_validate": 100}))
    return out
