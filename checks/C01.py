"""Clustering: every step and the final partition."""
FUNCTIONS = ["dataclusters.DataClusters.__init__/_setdata/__next__/makeclusters/find_nearest_cluster/"
             "reset_clusters"]
BOUNDS = ("complete runs: n<=4 points (quick) / n<=5 (thorough), arbitrary real x (increasing), y, res>=0; "
          "single step: every valid cluster configuration on n<=6 (quick) / n<=7 (thorough) points, arbitrary "
          "test point, x and res")


def valid(h, cl, n):
    cl = [[int(a), int(b)] for a, b in cl]
    ok = all(0 <= a <= b < n for a, b in cl) and all(p[1] < q[0] for p, q in zip(cl, cl[1:]))
    h.prove(ok, "clusters are ordered, disjoint and within the data")
    return cl


def check_step(h, x, res, old, new, t):
    """One clustering step on point t takes configuration old to new."""
    def dist(c):
        a, b = c
        return x[a] - x[t] if t < a else x[t] - x[b]
    n = len(x)
    ds = [dist(c) for c in old]
    h.prove(not any(a <= t <= b for a, b in old), "a processed point was not in a cluster before")
    if len(new) == len(old) + 1:
        h.prove(sorted(old + [[t, t]]) == new, "a new cluster holds only the point, the others are unchanged")
        for d in ds:
            h.prove(d > res, "new cluster only when every cluster is further than the resolution")
    else:
        h.prove(len(new) == len(old), "a step changes the number of clusters by at most one")
        diff = [i for i in range(len(old)) if old[i] != new[i]]
        h.prove(len(diff) == 1, "a point joins exactly one cluster")
        i = diff[0]
        h.prove(new[i] == [min(old[i][0], t), max(old[i][1], t)], "the cluster grows exactly up to the point")
        h.prove(h.le(ds[i], res), "a point joins a cluster only within the resolution")
        for d in ds:
            h.prove(h.le(ds[i], d), "a point joins the nearest cluster")


def full(h):
    n = h.p["n"]
    x = h.increasing("x", n)
    y = h.array("y", n)
    res = h.real("res", nonneg=True)
    DC = h.cls("dataclusters", "DataClusters")
    dc = DC(x, y, res)
    if h.p.get("reset"):
        dc.makeclusters()
        dc.reset_clusters()
    old = valid(h, dc.clusters, n)
    h.prove(len(old) == 1 and old[0][0] == old[0][1], "clustering starts from one point")
    top = old[0][0]
    for i in range(n):
        h.prove(h.le(y[i], y[top]), "clustering starts from the highest point")
    last = top
    steps = 0
    for s in dc:
        steps += 1
        h.prove(steps < n + 1, "clustering terminates")
        t = int(dc.lastpoint_idx)
        new = valid(h, dc.clusters, n)
        check_step(h, x, res, old, new, t)
        h.prove(h.le(y[t], y[last]), "points are processed from high to low")
        for i in range(n):
            if not any(a <= i <= b for a, b in new):
                h.prove(h.le(y[i], y[t]), "every point at least as high as the current one is clustered")
        k = int(dc.lastcluster_idx)
        h.prove(0 <= k < len(new) and new[k][0] <= t <= new[k][1], "the last cluster index names the cluster of the last point")
        old, last = new, t
    cl = valid(h, dc.clusters, n)
    h.prove(sum(b - a + 1 for a, b in cl) == n, "at the end every point is in exactly one cluster")
    h.prove(h.raises(lambda: next(dc), StopIteration) == "StopIteration", "a finished clustering stays finished")
    DC2 = DC(x, y, res)
    DC2.makeclusters()
    h.prove([[int(a), int(b)] for a, b in DC2.clusters] == cl, "makeclusters gives the result of stepping")


def configs(h, n):
    """Any non-empty valid configuration of clusters over n points."""
    cl = []
    i = 0
    while i < n:
        w = h.choice("w%d" % i, list(range(0, n - i + 1)))
        if w:
            cl.append([i, i + w - 1])
            i += w
        else:
            i += 1
    h.assume(len(cl) > 0)
    return cl


def step(h):
    n = h.p["n"]
    cl = configs(h, n)
    free = [i for i in range(n) if not any(a <= i <= b for a, b in cl)]
    h.assume(len(free) > 0)
    t = h.choice("t", free)
    x = h.increasing("x", n)
    res = h.real("res", nonneg=True)
    # heights: clustered points high, then t, then the other free points
    ys = [0.0] * n
    rank = [i for i in free if i != t] + [t] + [i for i in range(n) if i not in free]
    for k, i in enumerate(rank):
        ys[i] = float(k)
    import numpy
    DC = h.cls("dataclusters", "DataClusters")
    dc = DC(x, h.arr(ys), res)
    dc.clusters = numpy.array(cl)
    dc.current_idx = rank.index(t) + 1
    next(dc)
    h.prove(int(dc.lastpoint_idx) == t, "the next point in order is processed")
    new = valid(h, dc.clusters, n)
    check_step(h, x, res, cl, new, t)
    h.observe("clusters", str(new))


def reject(h):
    DC = h.cls("dataclusters", "DataClusters")
    n = h.choice("n", [0, 1, 2])
    m = h.choice("m", [0, 1, 2])
    x, y = h.arr([float(i) for i in range(n)]), h.arr([float(i) for i in range(m)])
    res = h.real("res")
    r = h.raises(lambda: DC(x, y, res), ValueError)
    bad = h.orb(n != m, h.notb(h.le(0, res)) if h.mode == "sym" else res < 0)
    if r:
        h.prove(bad, "valid data are accepted")
    else:
        h.prove(h.notb(bad), "unequal lengths and negative resolutions are rejected")
        if n == 0:
            dc = DC(x, y, res)
            h.prove(h.raises(lambda: next(dc), Exception) is not None, "nothing can be clustered without data")


def scenarios(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 5 if q else 6):
        out.append(("full-n%d" % n, "full", {"n": n}, {"weight": 4 ** n, "max_validate": 150}))
    out.append(("full-reset", "full", {"n": 3, "reset": 1}, {}))
    for n in range(2, 7 if q else 8):
        out.append(("step-n%d" % n, "step", {"n": n}, {"weight": 3 ** n, "max_validate": 150}))
    out.append(("reject", "reject", {}, {}))
    return out
