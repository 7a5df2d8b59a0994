"""Nearest-cluster queries."""

from checks.C01 import configs
from checks.C02 import _mk

FUNCTIONS = ["dataclusters.DataClusters.find_nearest_cluster/find_nearest_cluster2"]
BOUNDS = "every valid cluster configuration on n<=6 (quick) / n<=8 (thorough) points, arbitrary real coordinates"


def check(h, x, cl, t, ans, what):
    k, d = int(ans[0]), ans[1]
    h.prove(0 <= k < len(cl), what + ": names an existing cluster")

    def signed(c):
        a, b = c
        if a <= t <= b:
            return 0.0
        return x[t] - x[a] if t < a else x[t] - x[b]
    h.prove_eq(d, signed(cl[k]), what + ": signed distance to that cluster, zero inside")
    for c in cl:
        s = signed(c)
        h.prove(h.le(abs(d), abs(s)), what + ": no cluster is nearer")


def byindex(h):
    n = h.p["n"]
    cl = configs(h, n)
    x = h.increasing("x", n)
    t = h.choice("t", list(range(n)))
    dc = _mk(h, n, cl, x)
    check(h, x, cl, t, dc.find_nearest_cluster(t), "nearest cluster of a data point")
    h.prove([[int(a), int(b)] for a, b in dc.clusters] == cl, "a query changes nothing")


def bycoord(h):
    n = h.p["n"]
    cl = configs(h, n)
    x = h.increasing("x", n)
    z = h.real("z")
    dc = _mk(h, n, cl, x)
    ans = dc.find_nearest_cluster2(z)
    # the data point(s) nearest to the coordinate
    best = [0]
    for i in range(1, n):
        if bool(abs(x[i] - z) < abs(x[best[0]] - z)):
            best = [i]
        elif bool(abs(x[i] - z) == abs(x[best[0]] - z)):
            best.append(i)
    if len(best) == 1:
        check(h, x, cl, best[0], ans, "nearest cluster of a coordinate")
    else:
        k = int(ans[0])
        h.prove(0 <= k < len(cl), "nearest cluster of a coordinate: names an existing cluster")


def nocluster(h):
    DC = h.cls("dataclusters", "DataClusters")
    dc = DC(h.arr([]), h.arr([]), 1.0)
    h.prove(h.raises(lambda: dc.find_nearest_cluster(0), Exception) is not None, "no data, no nearest cluster")
    h.prove(h.raises(lambda: dc.find_nearest_cluster2(0.0), Exception) is not None, "no data, no nearest cluster")


def scenarios(tier):
    q = tier == "quick"
    out = [("nodata", "nocluster", {}, {})]
    for n in range(1, 7 if q else 9):
        out.append(("index-n%d" % n, "byindex", {"n": n}, {"weight": 3 ** n, "max_validate": 100}))
    for n in range(1, 5 if q else 6):
        out.append(("coord-n%d" % n, "bycoord", {"n": n}, {"weight": 3 * 3 ** n, "max_validate": 100}))
    return out
