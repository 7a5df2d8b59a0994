"""Traces, log levels and live plots."""
import logging
import os

import scipy.optimize

from checks import C14, C24, C25
from checks.funcs import *  # noqa: F401,F403
from checks.C10 import flat
from checks.C13 import block

FUNCTIONS = ["srmiselog.TracePeaks.emit/maketrace/write/filter/pushc/popc/pushr/popr/reset_trace", "srmiselog.settracer/setlevel/setfilelevel/addfilelog/liveplotting", "modelcluster.ModelCluster.prune",
             "peakextraction.PeakExtraction.extract_single", "pdfpeakextraction.PDFPeakExtraction.extract", "modelparts.ModelParts.fit"]
BOUNDS = ("traces of up to 3 clusters of at most 2 peaks each, on up to 6 points; up to 2 filters; every sequence of up to 4 (quick) / 5 entries, exits and traces; up to 3 / 4 changes of levels to any numbers or names; searches as in C24 and prunings as in C14 "
          "with the functions of this property watched; live plots of fits of up to 2 peaks with any outcome. What is written to files and read back is decided in C17")


def tracer(h, **kw):
    sl = h.mod("srmiselog")
    h.setattr(sl, "tracer", sl.tracer)
    t = sl.settracer(**kw)
    h.prove(sl.tracer is t, "the tracer is in use")
    return t


def clusters(h, sizes, n=6):
    fl = [flat(h), block(h, "b")]
    xs, ys, es = [1.0 + i for i in range(n)], h.reals("y", n), h.reals("e", n, pos=True)
    x, y, e = h.arr(xs), h.arr(ys), h.arr(es)
    out, k, at = [], 0, 0
    c = h.real("c")
    base = actualize(h, peakfn(h, "poly0"), [c])
    for i, m in enumerate(sizes):
        ps = []
        for j in range(m):
            p = actualize(h, fl[k % 2], [h.real("x%d" % k), h.real("h%d" % k)], [True, k % 2 == 0])
            p.removable = k != 1
            ps.append(p)
            k += 1
        for a, b in zip(ps[:-1], ps[1:]):
            h.assume(a.pars[0] <= b.pars[0])
        end = n if i == len(sizes) - 1 and h.p.get("whole") else at + 2
        out.append(h.cls("modelcluster", "ModelCluster")(h.cls("peaks.base", "Peaks")(ps), base, x, y, e, slice(at, end), h.cls("modelevaluators.aic", "AIC"), fl))
        at = end
    return out, dict(xs=xs, ys=ys, es=es, c=c, fl=fl)


def facts(p):
    return p.owner(), list(p.pars), [bool(f) for f in p.free], p.removable, p.static_owner


def agree(h, p, f, label):
    h.prove(p.owner() is f[0] and h.exact(list(p.pars), f[1]) and [bool(b) for b in p.free] == f[2] and p.removable == f[3] and p.static_owner == f[4], label)


def check(h, tr, s, was, slices, recursion, counter, label):
    mc = tr["mc"]
    n = len(s["xs"])
    h.prove(tr["clusters"] == slices, label + ": the extent of each cluster")
    h.prove(tr["recursion"] == recursion and tr["counter"] == counter, label + ": level and number")
    h.prove(mc.size == n and h.exact(list(mc.r_cluster), s["xs"]) and h.exact(list(mc.y_cluster), s["ys"]) and h.exact(list(mc.error_cluster), s["es"]), label + ": all the data")
    h.prove(h.exact(list(mc.baseline.pars), [s["c"]]), label + ": the baseline")
    h.prove(len(mc.model) == len(was), label + ": the peaks of all clusters")
    rest = list(mc.model)
    for f in was:
        hit = [p for p in rest if p.owner() is f[0] and bool(h.exact(list(p.pars), f[1]))]
        h.prove(len(hit) > 0, label + ": the peaks of all clusters")
        agree(h, hit[0], f, label + ": the peaks of all clusters")
        rest.remove(hit[0]) if hit[0] in rest else None
    pos = [p.pars[0] for p in mc.model]
    h.prove(h.andb(*[a <= b for a, b in zip(pos[:-1], pos[1:])]), label + ": sorted")


def trace(h):
    """What a trace holds, and that it stays."""
    t = tracer(h, filter=["True"], store=True)
    h.prove(t.store is True and t.trace == [], "nothing traced yet")
    cs, s = clusters(h, h.p["sizes"])
    was = [[facts(p) for p in c.model] for c in cs]
    objs = [list(c.model) for c in cs]
    sl = [c.slice for c in cs]
    rec = h.choice("recursion", [0, 2])
    t.pushc()
    for _ in range(rec):
        t.pushr()
    t.emit(*cs)
    h.prove(len(t.trace) == 1 and t.counter == 1, "traced once")
    for c, w, o, q in zip(cs, was, objs, sl):
        h.prove(c.slice == q and len(c.model) == len(o) and all(a is b for a, b in zip(c.model, o)), "clusters traced are not changed")
        for p, f in zip(c.model, w):
            agree(h, p, f, "clusters traced are not changed")
        h.prove(c.size == q.stop - q.start and h.exact(list(c.r_cluster), s["xs"][q]), "clusters traced are not changed")
    allw = [f for w in was for f in w]
    check(h, t.trace[0], s, allw, sl, rec, 0, "the trace")
    # fitting goes on
    k = 0
    for c in cs:
        for p in c.model:
            p.pars = h.arr([p.pars[0], h.real("g%d" % k)])
            p.pars[1] = h.real("gg%d" % k)
            p.removable = not p.removable
            k += 1
        if len(c.model) > 1:
            del c.model[0]
    later = [facts(p) for c in cs for p in c.model]
    check(h, t.trace[0], s, allw, sl, rec, 0, "a stored trace later on")
    t.emit(*cs)
    h.prove(len(t.trace) == 2 and t.counter == 2, "traced twice")
    check(h, t.trace[1], s, later, sl, rec, 1, "the next trace")
    check(h, t.trace[0], s, allw, sl, rec, 0, "a stored trace later on")


def filters(h):
    """Traces are made when all filters hold."""
    v = h.real("v")
    fs = h.choice("filters", [["False"], ["True"], ["False", "True"], ["True", "False or True"], ["args[0].model[0].pars[1] > 0.5"], ["args[0].model[0].pars[1] > 0.5", "args[0].model[0].pars[1] < 2 or False"],
                              ["self.counter < 1"], ["self.recursion == 1", "len(args) == 1"], None])
    base = h.path("out/trace") if h.choice("file", [False, True]) else None
    kw = {} if fs is None else dict(filter=fs)
    if base:
        kw["filebase"] = base
    store = h.choice("store", [False, True])
    t = tracer(h, store=store, **kw)
    if base:
        h.prove(os.path.isdir(os.path.dirname(base)), "the folder of traces is made")
    cs, s = clusters(h, [1])
    p = cs[0].model[0]
    p.pars = h.arr([p.pars[0], v])
    t.pushr()
    h.setattr(t, "writestr", lambda tr: "trace %d" % tr["counter"])
    t.emit(cs[0])
    t.emit(cs[0])
    if fs is None or "False" in fs:
        n = 0
    elif fs[0].startswith("args"):
        n = 2 * int(bool(h.andb(v > 0.5, v < 2) if len(fs) > 1 else v > 0.5))
    else:
        n = 1 if fs[0] == "self.counter < 1" else 2
    h.prove(t.counter == n, "traced exactly when every filter holds")
    h.prove(len(t.trace) == (n if store else 0), "stored if asked to")
    if base:
        d = os.path.dirname(base)
        h.prove(sorted(os.listdir(d)) == ["trace_%d" % i for i in range(n)], "a file for each trace, numbered")
        for i in range(n):
            with open("%s_%d" % (base, i)) as f:
                h.prove(f.read() == "trace %d" % i, "each trace in its file")


def levels(h):
    """Entering and leaving."""
    t = tracer(h, filter=["True"])
    cs, s = clusters(h, [1])
    call, rec, cnt = 0, 0, 0
    if h.p.get("before"):
        t.pushc(), t.pushr(), t.emit(cs[0]), t.popc(), t.popr()
        rec, cnt = 0, 1
    for i in range(h.p["steps"]):
        op = h.choice("op%d" % i, ["pushc", "popc", "pushr", "popr", "emit"])
        if op == "pushc":
            if call == 0:
                rec, cnt = 0, 0
            call += 1
            h.prove(t.pushc() == call, "the new depth is returned")
        elif op == "popc":
            if call == 0:
                return
            call -= 1
            h.prove(t.popc() == call, "the new depth is returned")
        elif op == "pushr":
            rec += 1
            h.prove(t.pushr() == rec, "the new level is returned")
        elif op == "popr":
            if rec == 0:
                return
            rec -= 1
            h.prove(t.popr() == rec, "the new level is returned")
        else:
            tr = t.maketrace(cs[0])
            h.prove(tr["counter"] == cnt and tr["recursion"] == rec, "traces have their number and level")
            t.emit(cs[0])
            cnt += 1
        h.prove((t.call, t.recursion, t.counter) == (call, rec, cnt), "levels and number, which start again with each outermost call")


def watch(h):
    """Records the levels of a search."""
    sl = h.mod("srmiselog")
    tr = sl.TracePeaks()
    h.setattr(sl, "tracer", tr)
    log = []
    for k in ("pushc", "popc", "pushr", "popr"):
        def f(k=k, g=getattr(tr, k)):
            v = g()
            log.append((k, v))
            return v
        h.setattr(tr, k, f)
    return tr, log


def balance(h, tr, log, depth=None):
    h.prove(tr.call == 0 and tr.recursion == 0, "everything entered is left")
    c = r = 0
    for k, v in log:
        c += (k == "pushc") - (k == "popc")
        r += (k == "pushr") - (k == "popr")
        h.prove(c >= 0 and r >= 0, "nothing is left that was not entered")
        h.prove(v == (c if k.endswith("c") else r), "the new level is returned")
    if depth is not None:
        h.prove(max([v for k, v in log if k == "pushr"] + [0]) == depth, "the level is that of recursive searches")
    h.prove(len(log) > 0 and log[0][0] in ("pushc", "pushr"), "the search is traced")


def search(h):
    """Searching: levels and traces."""
    tr, log = watch(h)
    E = h.cls("peakextraction", "PeakExtraction")
    depth = [0, 0]
    orig = E.extract_single

    def single(self, *a):
        depth[0] += 1
        depth[1] = max(depth)
        at = tr.recursion
        try:
            h.prove(at == depth[0] - 1, "the level is that of recursive searches")
            return orig(self, *a)
        finally:
            depth[0] -= 1
            h.prove(tr.recursion == at, "each search leaves what it entered")
    h.setattr(E, "extract_single", single)
    emit = tr.emit
    C24.single(h)
    balance(h, tr, log, depth[1])


def pruned(h):
    """Pruning: traces."""
    tr, log = watch(h)
    seen = []
    h.setattr(tr, "emit", lambda *mcs, **k: seen.append([(m, len(m.model), m.quality().stat) for m in mcs]))
    MC = h.cls("modelcluster", "ModelCluster")
    orig, ends = MC.prune, []

    def prune(self, *a, **k):
        first = (self, len(self.model), self.quality().stat)
        out = orig(self, *a, **k)
        ends.append((first, (self, len(self.model), self.quality().stat)))
        return out
    h.setattr(MC, "prune", prune)
    C14.prune(h)
    balance(h, tr, log)
    for v in seen:
        h.prove(len(v) == 1, "one cluster")
    (first, last), = ends
    if seen:
        h.prove(seen[0][0][1] < first[1] and h.le(seen[0][0][2], first[2]), "each trace shows a smaller model, no worse")
        h.prove(seen[-1][0][1] == last[1] and h.exact(seen[-1][0][2], last[2]), "the last trace is the outcome")
    else:
        h.prove(last[1] == first[1], "each change is traced")
    for a, b in zip(seen[:-1], seen[1:]):
        h.prove(b[0][1] < a[0][1] and h.le(b[0][2], a[0][2]), "each trace shows a smaller model, no worse")


def workflow(h):
    """Extraction of a PDF: levels and traces."""
    tr, log = watch(h)
    seen = []
    h.setattr(tr, "emit", lambda *mcs, **k: seen.append(list(mcs)))
    E = h.cls("pdfpeakextraction", "PDFPeakExtraction")
    orig = E.extract

    def extract(self, *a, **k):
        out = orig(self, *a, **k)
        h.prove(len(seen) > 0 and seen[-1] == [self.extracted], "the last trace is the result")
        h.prove(tr.call == 0 and tr.recursion == 0, "everything entered is left")
        return out
    h.setattr(E, "extract", extract)
    C24.extract(h)
    balance(h, tr, log)


class Broken(Exception):
    pass


def failing(h):
    """Searches, prunings and extractions that end in an error."""
    tr, log = watch(h)
    what, k = h.p["what"], h.choice("at", list(range(h.p["at"])))
    owner, name = {"search": (h.cls("dataclusters", "DataClusters"), "__next__"), "prune": (h.cls("modelcluster", "ModelCluster"), "quality"),
                   "extract": (h.cls("modelcluster", "ModelCovariance"), "__init__")}[what]
    orig, n = getattr(owner, name), [0]

    def boom(self, *a, **kw):
        if not log:
            return orig(self, *a, **kw)
        n[0] += 1
        if n[0] > k:
            raise Broken()
        return orig(self, *a, **kw)
    h.setattr(owner, name, boom)
    err = h.raises(lambda: {"search": C24.single, "prune": C14.prune, "extract": C24.extract}[what](h), Broken)
    if err is None:
        return
    h.prove(len(log) > 0, "the search is traced")
    h.prove(tr.call == 0 and tr.recursion == 0, "everything entered is left upon an error, too")


# -- logging

class Handler:
    def __init__(self, level=None, name=None):
        self.level, self.name, self.formatter = level, name, None

    def setLevel(self, v):
        self.level = number(v)

    def setFormatter(self, f):
        self.formatter = f


def number(v):
    if isinstance(v, str):
        if v not in ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"):
            raise ValueError("Unknown level: %r" % v)
        return getattr(logging, v)
    return v


class Logger:
    def __init__(self, level, handlers):
        self.level, self.handlers = level, handlers

    def setLevel(self, v):
        self.level = number(v)

    def getEffectiveLevel(self):
        return self.level

    def isEnabledFor(self, v):
        return v >= self.level

    def addHandler(self, x):
        self.handlers.append(x)


NAMES = {"debug": 10, "info": 20, "warning": 30, "error": 40, "critical": 50}


def log(h):
    """Which messages go where."""
    sl = h.mod("srmiselog")
    con = Handler(20)
    lg = Logger(20, [con])
    h.setattr(sl, "logger", lg)
    h.setattr(sl, "ch", con)
    h.setattr(sl, "fh", None)
    h.setattr(logging, "FileHandler", lambda name, *a, **k: Handler(0, name))
    E = h.cls("srmiseerrors", "SrMiseLogError")
    want = {id(con): 20}
    cur, n = None, 0
    for i in range(h.p["steps"]):
        op = h.choice("op%d" % i, ["console", "file", "filelevel"])
        kind = h.choice("kind%d" % i, ["number", "name"])
        if kind == "number":
            v = w = h.real("level%d" % i, lo=1, hi=60)
        else:
            v = h.choice("name%d" % i, ["debug", "info", "error"] if i else sorted(NAMES))
            w = NAMES[v]
        if op == "console":
            sl.setlevel(v)
            want[id(con)] = w
        elif op == "file":
            kw = dict(level=v) if kind == "number" or h.p.get("names") else {}
            w = w if kw else 20
            sl.addfilelog("log%d" % n, **kw)
            h.prove(len(lg.handlers) == n + 2 and lg.handlers[-1].name == "log%d" % n, "logged to the file named")
            cur = lg.handlers[-1]
            want[id(cur)] = w
            n += 1
        elif cur is None:
            h.prove(h.raises(lambda: sl.setfilelevel(v), E) is not None, "without a file its level cannot be set")
        else:
            sl.setfilelevel(v)
            want[id(cur)] = w
        m = h.real("message%d" % i, lo=1, hi=60)
        for x in lg.handlers:
            got = h.andb(m >= lg.level, m >= x.level)
            should = m >= want[id(x)]
            h.prove(h.orb(h.andb(got, should), h.andb(h.notb(got), h.notb(should))), "messages are logged from the level asked for on, and no others")


def switches(h):
    """Live plots are switched by booleans."""
    sl = h.mod("srmiselog")
    was = h.choice("plots before", [False, True]), h.choice("wait before", [False, True])
    h.setattr(sl, "liveplots", was[0])
    h.setattr(sl, "wait", was[1])
    a = h.choice("plots", [True, False, None, 1, "True"])
    b = h.choice("wait", ["unset", True, False, None, 0, "no"])
    f = (lambda: sl.liveplotting(a)) if b == "unset" else lambda: sl.liveplotting(a, b)
    bad = not isinstance(a, bool) or not (isinstance(b, bool) or b == "unset")
    got = h.raises(f, ValueError)
    h.prove((got is not None) == bad, "only booleans are accepted")
    if not bad:
        h.prove(sl.liveplots is a and sl.wait is (False if b == "unset" else b), "as asked for")


def live(h):
    """Fits shown as they progress."""
    sl = h.mod("srmiselog")
    sc = C25.screen(h)
    k, n = h.p["peaks"], 5
    wait = h.choice("wait", [False, True])
    frees = [[True, h.choice("free%d" % i, [True, False])] for i in range(k)]
    pars = [[float(i), h.real("h%d" % i)] for i in range(k)]
    xs, ys, es = [1.0 + i for i in range(n)], h.reals("y", n), h.reals("e", n, pos=True)
    nf = sum(sum(f) for f in frees)
    new = h.reals("new", nf)
    mode = h.choice("outcome", ["ok", "singular", "fail", "raise"])
    sl_ = h.choice("range", [None, slice(0, n)])
    log, curves = [], []

    def leastsq(func, x0, args=(), **kw):
        log.append((list(x0), sc.shown("curve"), mode))
        fv = func(h.arr(new), *args)
        if mode == "raise":
            raise RuntimeError("optimiser")
        cov = None
        if mode == "ok":
            cov = h.arr([0.0] * nf * nf).reshape(nf, nf)
        return h.arr(new), cov, {"fvec": fv}, "", 5 if mode == "fail" else 1
    h.stub(scipy.optimize.leastsq, leastsq)
    E = h.cls("srmiseerrors", "SrMiseFitError")
    out = []
    rem = [h.choice("removable%d" % i, [True, False]) for i in range(k)]
    for show in (False, True):
        h.setattr(sl, "liveplots", show)
        h.setattr(sl, "wait", wait and show)
        m = h.cls("peaks.base", "Peaks")([actualize(h, flat(h), p, f) for p, f in zip(pars, frees)])
        for p, v in zip(m, rem):
            p.removable = v
        objs, keep = list(m), [(p.owner(), list(f), p.removable, p.static_owner) for p, f in zip(m, frees)]
        x, y, e = h.arr(xs), h.arr(ys), h.arr(es)
        with h.quiet():
            err = h.raises(lambda: m.fit(x, y, e, sl_), E)
        out.append((err, [list(p.pars) for p in m]))
        h.prove(len(m) == k and all(p is q for p, q in zip(m, objs)), "the peaks and their order are not changed")
        for p, q in zip(m, keep):
            h.prove((p.owner(), [bool(f) for f in p.free], p.removable, p.static_owner) == q, "the peaks are not changed otherwise")
        h.prove(h.exact(list(x), xs) and h.exact(list(y), ys) and h.exact(list(e), es), "the data are not changed")
        if not show:
            h.prove(not sc.shown() and not sc.frames and not sc.log, "nothing is shown unless asked for")
    h.prove(out[0][0] == out[1][0], "showing a fit does not change its outcome")
    for a, b in zip(out[0][1], out[1][1]):
        h.prove(h.exact(a, b), "showing a fit does not change its outcome")
    h.prove(len(log) == 2 and h.exact(log[0][0], log[1][0]), "showing a fit does not change its start")
    for shown, hs in ((log[1][1], [p[1] for p in pars]), (sc.shown("curve"), [p[1] for p in out[1][1]])):
        if mode == "raise" and shown is not log[1][1]:
            continue
        tot = sum(hs, 0.0)
        h.prove(C25.curve(h, shown, xs, ys), "the data are shown before and after")
        for v in hs:
            h.prove(C25.curve(h, shown, xs, [v] * n), "each peak is shown before and after")
        res = [v - tot for v in ys]
        h.prove(h.orb(*[h.andb(*[h.eq(cy[i] - cy[0], res[i] - res[0]) for i in range(n)]) for _, cx, cy in shown if len(cx) == n]), "the residual is shown before and after")
    h.prove([v[0] for v in sc.log].count("input") == int(wait and mode != "raise"), "waits if asked to")


def scenarios(tier):
    T = tier == "thorough"
    out = []
    for sz in ([1], [2], [0], [1, 1], [0, 1], [2, 1], [1, 0, 1]) + (([1, 2, 1], [2, 2]) if T else ()):
        out.append(("trace-" + "-".join(map(str, sz)), "trace", dict(sizes=sz), {"max_validate": 60}))
        if len(sz) < 3:
            out.append(("trace-whole-" + "-".join(map(str, sz)), "trace", dict(sizes=sz, whole=1), {"max_validate": 60}))
    out.append(("filters", "filters", {}, {}))
    out.append(("levels", "levels", dict(steps=5 if T else 4), {"max_validate": 60}))
    out.append(("levels-again", "levels", dict(steps=4 if T else 3, before=1), {"max_validate": 60}))
    for nm in (False, True):
        out.append(("log-%d" % nm, "log", dict(steps=3 if T else 2, names=nm), {"max_validate": 60}))
    if not T:
        out.append(("log-3", "log", dict(steps=3, names=False), {"max_validate": 40, "weight": 4}))
    out.append(("switches", "switches", {}, {}))
    for k in (1, 2):
        out.append(("live%d" % k, "live", dict(peaks=k), {"weight": 2}))
    S = C24.SHAPES
    for name, p in [("two", {}), ("valley", {}), ("initial", dict(initial=1)), ("recurse", dict(grow=[(0,), (1,)], nested=1)), ("recurse2", dict(shape="three", grow=[(0, 1)], nested=1))]:
        out.append(("search-" + name, "search", dict(p, shape=S[p.get("shape", "two" if name != "valley" else "valley")]), {"max_validate": 40}))
    for k, rem in ((2, [True, True]), (2, [True, False]), (3, [True, False, True]), (2, [False, False])):
        out.append(("pruned-%d-%s" % (k, "".join(str(int(r)) for r in rem)), "pruned", dict(kind="linear", n=5, peaks=k, outcomes=["ok"], rem=rem), {"max_validate": 40, "weight": k}))
    for name, p in [("two", {}), ("recurse", dict(grow=[(0,), (1,)], nested=1))]:
        out.append(("failing-search-" + name, "failing", dict(p, what="search", at=16 if name == "recurse" else 5, shape=S["two"]), {"max_validate": 40}))
    out.append(("failing-prune", "failing", dict(what="prune", at=3, kind="linear", n=5, peaks=2, outcomes=["ok"], rem=[True, True]), {"max_validate": 40}))
    W = [p for p in C24.scenarios(tier) if p[1] == "extract"]
    out.append(("failing-extract", "failing", dict(W[0][2], what="extract", at=1), {"max_validate": 40}))
    W = [p for p in C24.scenarios(tier) if p[1] == "extract"]
    for name, f, p, o in (W if T else W[::max(1, len(W) // 6)]):
        out.append(("workflow-" + name, "workflow", p, dict(o, max_validate=40)))
    return out
