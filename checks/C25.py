"""Looking at data, models and results: what is drawn, and that nothing changes."""
import sys
import time

from checks.funcs import *  # noqa: F401,F403
from checks.C10 import flat

FUNCTIONS = ["modelcluster.ModelCluster.plottable/plottable_residual/value/valuebl/residual", "peakextraction.PeakExtraction.plot", "peakstability.PeakStability.plot/plotseries/animate/setcurrent",
             "multimodelselection.MultimodelSelection.animate_probs/animate_classprobs/plot3dclassprobs", "dataclusters.DataClusters.plot/animate", "applications.plot.comparepositions/dgseries/makeplot/readcompare/main"]
BOUNDS = ("models of at most 3 (quick) / 4 peaks of constant height on 3 or 4 points with all values; up to 3 candidates with all heights, up to 3 uncertainties and all probabilities and orders; clusterings of up to 4 (quick) / 5 points of all values, "
          "animated after any number of steps; figures of every combination of the options named in the scenarios, scales and data all values; matplotlib is a stand-in that records the curves, so how they look is not covered")


class Dummy:
    """Anything that may be asked of matplotlib."""

    def __init__(self, screen=None):
        self.__dict__["_screen"] = screen

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        s = self._screen
        if s is not None and k in ("draw", "draw_idle", "blit"):
            return lambda *a, **kw: s.frame()
        return Dummy(s)

    def __setattr__(self, k, v):
        pass

    def __call__(self, *a, **k):
        return Dummy(self._screen)

    def __getitem__(self, k):
        return Dummy(self._screen)

    def __setitem__(self, k, v):
        pass

    def __iter__(self):
        return iter([])

    def __sub__(self, o):
        return self

    __rsub__ = __add__ = __radd__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = lambda self, *a: self

    def __lt__(self, o):
        return True

    __le__ = __gt__ = __ge__ = __lt__


class Line(Dummy):
    """A curve."""

    def __init__(self, screen, x, y, kind="curve", kw=None):
        self.__dict__.update(_screen=screen, x=listed(x), y=listed(y), kind=kind, kw=kw or {})

    def set_xdata(self, v):
        self._screen.changing()
        self.__dict__["x"] = demand(v, "x")

    def set_ydata(self, v):
        self._screen.changing()
        self.__dict__["y"] = demand(v, "y")

    def set_data(self, *a):
        a = a[0] if len(a) == 1 else a
        self.set_xdata(a[0])
        self.set_ydata(a[1])

    def get_xdata(self, *a):
        return self.x

    def get_ydata(self, *a):
        return self.y


def demand(v, k):
    if not hasattr(v, "__len__"):
        raise RuntimeError(k + " must be a sequence")
    return list(v)


def listed(v):
    return list(v) if hasattr(v, "__len__") or hasattr(v, "__next__") else [v]


class Axes(Dummy):
    def __init__(self, screen, key):
        self.__dict__.update(_screen=screen, key=key, lines=[], limits={})

    def plot(self, *args, **kw):
        made, i = [], 0
        while i < len(args):
            if i + 1 < len(args) and not isinstance(args[i + 1], str):
                x, y = args[i], args[i + 1]
                i += 2
            else:
                y = listed(args[i])
                x = range(len(y))
                i += 1
            if i < len(args) and isinstance(args[i], str):
                i += 1
            ln = Line(self._screen, x, y, kw=kw)
            if len(ln.x) != len(ln.y):
                raise ValueError("x and y must have same first dimension")
            made.append(ln)
        self.lines.extend(made)
        return made

    def fill_between(self, x, y1, y2=0, **kw):
        n = len(listed(x))
        for y in (y1, y2):
            self.lines.append(Line(self._screen, x, listed(y) if len(listed(y)) == n else [y] * n, "fill", kw))
        return Dummy(self._screen)

    def axvline(self, x=0, *a, **kw):
        self.lines.append(Line(self._screen, [x, x], [0, 1], "vline", kw))
        return self.lines[-1]

    def axhline(self, y=0, *a, **kw):
        self.lines.append(Line(self._screen, [0, 1], [y, y], "hline", kw))
        return self.lines[-1]

    def cla(self):
        self.lines[:] = []

    clear = cla

    def twinx(self):
        return self._screen.axes(("twin", self.key), select=False)

    def limit(self, k, a, kw):
        if len(a) == 1 and hasattr(a[0], "__len__"):
            a = tuple(a[0])
        if a:
            self.limits[k] = tuple(a)
        return self.limits.get(k, (0.0, 1.0))

    def get_ylim(self):
        return self.limit("y", (), {})

    def get_xlim(self):
        return self.limit("x", (), {})

    def set_xlim(self, *a, **kw):
        return self.limit("x", a, kw)

    def set_ylim(self, *a, **kw):
        return self.limit("y", a, kw)

    @property
    def figure(self):
        return self._screen.fig

    def get_figure(self):
        return self._screen.fig


class Axes3(Axes):
    """Axes in three dimensions."""

    def __init__(self, screen, key):
        super().__init__(screen, key)
        self.__dict__.update(polys=[], lines3=[], ticks=None, labels=None)

    def plot(self, x, y, z, *a, **kw):
        self.lines3.append((list(x), list(y), list(z)))
        return [Dummy(self._screen)]

    def add_collection3d(self, poly, zs=0, zdir="z", **kw):
        self.polys.append((poly, list(zs), zdir))

    def set_xlim3d(self, *a, **kw):
        return self.limit("x", a, kw)

    def set_ylim3d(self, *a, **kw):
        return self.limit("y", a, kw)

    def set_zlim3d(self, *a, **kw):
        return self.limit("z", a, kw)

    set_zlim = set_zlim3d

    def set_yticks(self, t, labels=None, **kw):
        self.__dict__["ticks"] = list(t)
        if labels is not None:
            self.__dict__["labels"] = list(labels)

    def set_yticklabels(self, t, **kw):
        self.__dict__["labels"] = list(t)


class Figure(Dummy):
    def clf(self, *a, **k):
        self._screen.clf()

    clear = clf

    def add_subplot(self, *a, **k):
        if a and isinstance(a[0], Axes):
            self._screen.use(a[0])
            return a[0]
        if k.get("projection") == "3d":
            return self._screen.use(Axes3(self._screen, "3d"))
        return self._screen.axes(a or (111,))

    def gca(self, *a, **k):
        return self._screen.gca()

    def suptitle(self, *a, **k):
        return Dummy(self._screen)

    def add_axes(self, *a, **k):
        return Dummy(self._screen)


class Screen:
    """matplotlib.pyplot."""

    def __init__(self, h):
        import matplotlib.pyplot as plt
        self.h, self.all, self.cur, self.frames, self.keys, self.log = h, {}, None, [], 0, []
        self.first = None
        self.fig = Figure(self)
        own = dict(figure=self.figure, gcf=lambda *a, **k: self.fig, gca=lambda *a, **k: self.gca(), clf=self.clf, cla=lambda: self.gca().cla(), subplot=lambda *a, **k: self.axes(a or (111,)),
                   subplots=lambda *a, **k: (self.figure(), self.axes((111,))), draw=lambda *a: self.frame(), axes=lambda *a, **k: self.use(a[0]) if a and isinstance(a[0], Axes) else self.axes(a),
                   sca=self.use, show=lambda *a, **k: self.log.append(("show", a, k)), savefig=lambda *a, **k: self.log.append(("savefig", a, k)),
                   xlim=lambda *a, **k: self.gca().limit("x", a, k), ylim=lambda *a, **k: self.gca().limit("y", a, k), pause=lambda *a: self.frame(), close=lambda *a: None)
        for k in ("plot", "fill_between", "axvline", "axhline"):
            own[k] = (lambda k: lambda *a, **kw: getattr(self.gca(), k)(*a, **kw))(k)
        for k in ("text", "xlabel", "ylabel", "title", "suptitle", "annotate", "axis", "ion", "ioff", "tight_layout", "legend", "xticks", "yticks", "grid", "rc", "setp"):
            own[k] = lambda *a, **kw: Dummy(self)
        for k, f in own.items():
            h.setattr(plt, k, f)
        log = self.log

        class Keys:
            def readline(self, *a):
                log.append(("input",))
                return "\n"

            def fileno(self):
                raise OSError("no terminal")

            def isatty(self):
                return False
        h.setattr(sys, "stdin", Keys())
        h.setattr(time, "sleep", lambda s: self.log.append(("sleep", s)))

    def figure(self, *a, **k):
        self.clf()
        return self.fig

    def clf(self, *a, **k):
        self.all, self.cur = {}, None

    def use(self, ax):
        self.all[ax.key] = ax
        self.cur = ax.key
        return ax

    def axes(self, key, select=True):
        if key not in self.all:
            self.all[key] = Axes(self, key)
        if select:
            self.cur = key
        return self.all[key]

    def new(self, name):
        return self.axes((name,))

    def gca(self):
        return self.axes((111,)) if self.cur is None else self.all[self.cur]

    def shown(self, *kinds):
        return [(ln.kind, list(ln.x), list(ln.y)) for ax in self.all.values() for ln in ax.lines if not kinds or ln.kind in kinds]

    def changing(self):
        """The picture before anything in it moves."""
        if self.first is None:
            self.first = self.shown()

    def frame(self):
        self.frames.append(self.shown())


def screen(h):
    return Screen(h)


def curve(h, shown, x, y):
    """Whether a curve is among those shown."""
    return h.orb(*[h.andb(h.exact(cx, list(x)), h.eq(cy, list(y))) for k, cx, cy in shown if len(cx) == len(x)])


def prove_shown(h, shown, want, label, extra=()):
    """Exactly these curves are shown (and those not of the count)."""
    for x, y in want:
        h.prove(curve(h, shown, x, y), label)


def snapshot(h, peaks):
    return [(p, p.owner(), list(p.pars), [bool(f) for f in p.free], p.removable, p.static_owner) for p in peaks]


def unchanged(h, was, peaks, label):
    h.prove(len(was) == len(peaks) and all(w[0] is p for w, p in zip(was, peaks)), label)
    for (p, o, pars, free, rem, st) in was:
        h.prove(p.owner() is o and h.exact(list(p.pars), pars) and [bool(f) for f in p.free] == free and p.removable == rem and p.static_owner == st, label)


# -- curves of a model

def build(h, n, k, base, tag="", fl=None):
    """A model of k peaks on n points."""
    fl = fl or flat(h)
    xs = [1.0 + 0.5 * i for i in range(n)]
    s = dict(xs=xs, ys=h.reals("y" + tag, n), es=h.reals("e" + tag, n, pos=True), hs=[h.real("h%s%d" % (tag, i)) for i in range(k)], n=n)
    s["peaks"] = h.cls("peaks.base", "Peaks")([actualize(h, fl, [float(i), v]) for i, v in enumerate(s["hs"])])
    s["c"] = h.real("c" + tag) if base else None
    s["m"] = h.real("m" + tag) if base == "poly1" else 0.0
    s["base"] = actualize(h, peakfn(h, base), ([s["m"]] if base == "poly1" else []) + [s["c"]]) if base else None
    return s


def expected(s, idx, joined=False, scale=1.0, xs=None):
    xs = xs or s["xs"]
    b = [(s["m"] * xs[i] + s["c"]) if s["base"] is not None else 0.0 for i in idx]
    tot = [v + sum(s["hs"], 0.0) for v in b]
    r = [xs[i] for i in idx]
    out = [(r, [s["ys"][i] * scale for i in idx])]
    if joined:
        return out + [(r, [v * scale for v in tot])]
    return out + [(r, [(v + q) * scale for v in b]) for q in s["hs"]]


def plottable(h):
    """The curves of a model."""
    MC = h.cls("modelcluster", "ModelCluster")
    s = build(h, h.p["n"], h.p["peaks"], h.p["base"])
    sl = h.choice("slice", [(0, s["n"]), None] + [(a, b) for a in range(s["n"]) for b in range(a + 1, s["n"] + 1) if (a, b) != (0, s["n"])])
    idx = range(*(sl or (0, s["n"])))
    mc = MC(s["peaks"], s["base"], h.arr(s["xs"]), h.arr(s["ys"]), h.arr(s["es"]), None if sl is None else slice(*sl), h.cls("modelevaluators.aic", "AIC"), [])
    was = snapshot(h, mc.model)
    for call, joined in ((lambda: mc.plottable(), False), (lambda: mc.plottable(False), False), (lambda: mc.plottable(joined=True), True)):
        got = call()
        want = expected(s, idx, joined)
        h.prove(len(got) == 2 * len(want), "pairs of coordinates and values")
        for i, (x, y) in enumerate(want):
            h.prove(len(got[2 * i]) == len(x) and h.exact(list(got[2 * i]), x), "over the coordinates of the cluster")
            h.prove(len(got[2 * i + 1]) == len(y), "over the coordinates of the cluster")
            h.prove_eq(list(got[2 * i + 1]), y, "data, then the model" if joined else "data, then each peak on the baseline")
    r, res = mc.plottable_residual()
    h.prove(h.exact(list(r), [s["xs"][i] for i in idx]) and len(res) == len(r), "over the coordinates of the cluster")
    tot = expected(s, idx, True)[1][1]
    h.prove_eq(list(res), [s["ys"][i] - t for i, t in zip(idx, tot)], "residual: data less model")
    unchanged(h, was, mc.model, "the model is not changed")
    h.prove(h.exact(list(mc.y_data), s["ys"]) and h.exact(list(mc.r_data), s["xs"]), "the data are not changed")


def extraction(h, s, cls="peakextraction.PeakExtraction", rng=None):
    m, c = cls.rsplit(".", 1)
    e = h.cls(m, c)()
    e.setdata(h.arr(s["xs"]), h.arr(s["ys"]), None, None)
    kw = dict(effective_dy=h.arr(s["es"]), cres=0.5, pf=[flat(h)], error_method=h.cls("modelevaluators.aic", "AIC"), baseline=s["base"])
    if rng:
        kw["rng"] = rng
    if c == "PDFPeakExtraction":
        kw.update(qmax=0.0, nyquist=False)
    e.setvars(quiet=True, **kw)
    return e


def drawn(h):
    """Plots of an extraction."""
    sc = screen(h)
    s = build(h, h.p["n"], h.p["peaks"], "poly0")
    cut = h.choice("range", [None, (1, s["n"])])
    e = extraction(h, s, h.p["cls"], None if cut is None else [s["xs"][cut[0]] - 0.1, s["xs"][cut[1] - 1] + 0.1])
    idx = range(*(cut or (0, s["n"])))
    if h.p["extracted"]:
        MC = h.cls("modelcluster", "ModelCluster")
        e.extracted = MC(s["peaks"], s["base"], h.arr([s["xs"][i] for i in idx]), h.arr([s["ys"][i] for i in idx]), h.arr([s["es"][i] for i in idx]), None, e.error_method, e.pf)
        e.extraction_type = "extract_single"
    else:
        e.setvars(quiet=True, initial_peaks=s["peaks"])
    ext, was = e.extracted, snapshot(h, s["peaks"])
    kw, joined = h.choice("joined", [({}, False), (dict(joined=False), False), (dict(joined=True), True)])
    sc.gca().plot([1.0], [2.0])
    with h.quiet():
        e.plot(**kw)
    want = expected(s, idx, joined)
    got = sc.shown("curve")
    h.prove(len(got) == len(want), "the data and the model as asked for, and nothing else")
    prove_shown(h, got, want, "the data and the model, or each peak")
    h.prove(e.extracted is ext, "the result is not changed")
    unchanged(h, was, s["peaks"], "the peaks are not changed")
    h.prove(h.exact(list(e.x), s["xs"]) and h.exact(list(e.y), s["ys"]), "the data are not changed")


# -- several results

def results(h, S, sizes, dgs, dgs2=None):
    """A set of results, each with data of its own grid."""
    fl, out, data = flat(h), [], []
    for i, k in enumerate(sizes):
        n = 3 if i % 2 == 0 else 2
        s = build(h, n, k, "poly0", "%d." % i, fl)
        s["dr"] = 0.25 + i
        s["xs"] = [1.0 + 0.5 * j + 0.125 * i for j in range(n)]
        out.append([dgs[i], s["peaks"], s["base"], s["dr"]])
        data.append(s)
    e = h.cls("pdfpeakextraction", "PDFPeakExtraction")()
    e.setdata(h.arr([1.0, 2.0]), h.arr([3.0, 4.0]), None, None)
    e.error_method, e.pf = quality(h), [fl]

    def resample(dr, **k):
        s = [s for s in data if s["dr"] == dr][0]
        return h.arr(s["xs"]), h.arr(s["ys"]), None, h.arr(s["es"])
    e.resampledata = resample
    S.setppe(e)
    S.results = out
    return data


def quality(h):
    B = h.cls("modelevaluators.base", "ModelEvaluator")

    class Given(B):
        def __init__(self):
            B.__init__(self, "Given", False)

        def evaluate(self, fit, count_fixed=False, kshift=0):
            self.stat, self.chisq = 1.5, 2.5
            return 1.5
    return Given


def keep(h, S):
    return [(r, list(r), snapshot(h, r[1]), list(r[2].pars)) for r in S.results]


def kept(h, S, was):
    h.prove(len(S.results) == len(was) and all(r is w[0] for r, w in zip(S.results, was)), "the results are not changed")
    for r, (_, items, peaks, bp) in zip(S.results, was):
        h.prove(len(r) == 4 and h.exact(r[0], items[0]) and r[1] is items[1] and r[2] is items[2] and h.exact(r[3], items[3]), "the results are not changed")
        unchanged(h, peaks, r[1], "the peaks of the results are not changed")
        h.prove(h.exact(list(r[2].pars), bp), "the baselines of the results are not changed")


def current(h, S, s, label):
    mc = S.ppe.extracted
    h.prove(mc is not None and len(mc.model) == len(s["hs"]) and h.exact([p.pars[1] for p in mc.model], s["hs"]), label)
    h.prove(h.exact(list(mc.baseline.pars), [s["c"]]), label)
    h.prove(len(mc.y_cluster) == s["n"] and h.exact(list(mc.y_cluster), s["ys"]), label)


def stability(h):
    """Plots and animations of results for several uncertainties."""
    sc = screen(h)
    S = h.cls(*h.p.get("cls", "peakstability.PeakStability").split("."))()
    k = h.p["sizes"]
    dgs = [0.5 + i for i in range(len(k))]
    data = results(h, S, k, dgs)
    was = keep(h, S)
    cur = h.choice("current", list(range(len(k))) + [None])
    S.setcurrent(cur)
    how = h.choice("how", ["plot", "series", "animate"])
    if how == "plot":
        if cur is None:
            return
        with h.quiet():
            S.plot()
        s = data[cur]
        got = sc.shown("curve")
        h.prove(len(got) == 1 + len(s["hs"]), "the data and each peak")
        prove_shown(h, got, expected(s, range(s["n"])), "the current model")
    elif how == "series":
        sc.gca().plot([7.0], [7.0])
        S.plotseries()
        got = sc.shown("curve")
        h.prove(sum([len(c[1]) for c in got]) == sum(k), "every peak of every result")
        for dg, r in zip(dgs, S.results):
            for p in r[1]:
                h.prove(h.orb(*[h.exact(x, p.pars[0]) and h.exact(y, dg) for _, cx, cy in got for x, y in zip(cx, cy)]), "each peak at its position and the uncertainty of its result")
    else:
        which = h.choice("which", [None] + h.p["which"])
        step = h.choice("step", [False, True])
        with h.quiet():
            S.animate(results=which, step=step)
        idx = list(range(len(k))) if which is None else which
        last = []
        for f in sc.frames:
            last.append([c for c in f if c[0] == "curve"])
        h.prove(len(last) >= len(idx), "a picture of each result")
        for f, i in zip(last[-len(idx):] if idx else [], idx):
            s = data[i]
            h.prove(len(f) == 1 + len(s["hs"]), "the data and each peak")
            prove_shown(h, f, expected(s, range(s["n"])), "each result in order")
        h.prove([v[0] for v in sc.log].count("input") == (len(idx) if step else 0), "waits after each if asked to")
    h.prove(S.current == cur, "the current model is restored")
    if cur is None:
        h.prove(S.ppe.extracted is None, "the current model is restored")
    else:
        current(h, S, data[cur], "the current model is restored")
        h.prove(h.exact(list(S.ppe.effective_dy), [dgs[cur]] * 2), "with its uncertainty")
    kept(h, S, was)


def selection(h, sc):
    S = h.cls("multimodelselection", "MultimodelSelection")()
    k = h.p["sizes"]
    nd = h.p["dgs"]
    dgs = [0.5 + i for i in range(max(nd, len(k)))]
    data = results(h, S, k, dgs)
    S.dgs = h.arr(dgs[:nd])
    return S, data, list(S.dgs)


def probs(h):
    """Animated probabilities of the models."""
    sc = screen(h)
    S, data, dgs = selection(h, sc)
    n = len(data)
    was = keep(h, S)
    S.aicprobs = {dg: h.arr([h.real("p%d.%d" % (i, j), lo=0, hi=1) for j in range(n)]) for i, dg in enumerate(dgs)}
    if h.p.get("orders"):
        S.sortedprobs = {dg: list(h.perm("order%d" % i, n)) for i, dg in enumerate(dgs)}
    else:
        S.makesortedprobs()
    best = [S.sortedprobs[dg][-1] for dg in dgs]
    step, duration = h.choice("step", [False, True]), h.choice("duration", [0.0, 3.0])
    S.animate_probs(step=step, duration=duration)
    frames = sc.frames[-(len(dgs) - 1):] if len(dgs) > 1 else [sc.shown()]
    h.prove(len(frames) == max(1, len(dgs) - 1), "a picture for each uncertainty")
    for f, dg, b in zip(frames, dgs[1:] or dgs, best[1:] or best):
        s = data[b]
        cs = [c for c in f if c[0] == "curve"]
        h.prove(len(cs) == 2 + 1 + len(s["hs"]), "probabilities, the most probable, and the most probable model")
        prove_shown(h, cs, expected(s, range(s["n"])), "the most probable model, its data and baseline")
        h.prove(curve(h, cs, dgs, list(S.aicprobs[dg])), "the probabilities at the uncertainty")
        h.prove(curve(h, cs, [dgs[b]], [S.aicprobs[dg][b]]), "the most probable model is marked")
        v = [c for c in f if c[0] == "vline"]
        h.prove(len(v) == 1 and h.andb(*[h.exact(x, dg) for x in v[0][1]]), "the uncertainty is marked")
    for k, x, y in sc.first or []:
        if k == "curve" and len(x) == 1:
            h.prove(h.exact(x, [dgs[best[0]]]) and h.exact(y, [S.aicprobs[dgs[0]][best[0]]]), "the most probable model is marked")
    h.prove([v[0] for v in sc.log].count("input") == ((len(dgs) - 1) if step else 0), "waits after each if asked to")
    kept(h, S, was)


def classprobs(h):
    """Animated probabilities of the classes."""
    sc = screen(h)
    S, data, dgs = selection(h, sc)
    n = len(data)
    was = keep(h, S)
    S.classes = h.p["classes"]
    nc = len(S.classes)
    S.classprobs = {dg: h.arr([h.real("p%d.%d" % (i, j), lo=0, hi=1) for j in range(nc)]) for i, dg in enumerate(dgs)}
    S.sortedclassprobs = {dg: list(h.perm("order%d" % i, nc)) for i, dg in enumerate(dgs)}
    S.sortedclasses = {dg: [[c[j] for j in h.perm("class%d.%d" % (i, a), len(c))] for a, c in enumerate(S.classes)] for i, dg in enumerate(dgs)}
    best = [S.sortedclassprobs[dg][-1] for dg in dgs]
    step, duration = h.choice("step", [False, True]), h.choice("duration", [0.0, 3.0]) if n == 2 else 0.0
    S.animate_classprobs(step=step, duration=duration)
    frames = sc.frames[-(len(dgs) - 1):] if len(dgs) > 1 else [sc.shown()]
    h.prove(len(frames) == max(1, len(dgs) - 1), "a picture for each uncertainty")
    at = list(range(1, len(dgs))) or [0]
    for f, i in zip(frames, at):
        dg, b = dgs[i], best[i]
        cs = [c for c in f if c[0] == "curve"]
        # the model shown is the best of its class, when the class became the most probable or now
        j = i
        while j > 0 and best[j - 1] == b:
            j -= 1
        which = []
        for m in {S.sortedclasses[dgs[t]][b][-1] for t in range(j, i + 1)}:
            s = data[m]
            r, tot = expected(s, range(s["n"]), True)[1]
            res = [y - t for y, t in zip(s["ys"], tot)]
            ok = [curve(h, cs, x, y) for x, y in expected(s, range(s["n"]))]
            ok.append(h.orb(*[h.andb(*[h.eq(cy[t] - cy[0], res[t] - res[0]) for t in range(len(r))]) for k, cx, cy in cs if len(cx) == len(r) and bool(h.exact(cx, r))]))
            if len(cs) == 2 + 2 + len(s["hs"]):
                which.append(h.andb(*ok))
        h.prove(h.orb(*which), "the best model of the most probable class, its data, baseline and residual")
        h.prove(curve(h, cs, list(range(nc)), list(S.classprobs[dg])), "the probabilities at the uncertainty")
        h.prove(curve(h, cs, [b], [S.classprobs[dg][b]]), "the most probable class is marked")
    h.prove([v[0] for v in sc.log].count("input") == ((len(dgs) - 1) if step else 0), "waits after each if asked to")
    kept(h, S, was)


def surface(h):
    """Class probabilities in three dimensions."""
    sc = screen(h)
    import matplotlib.collections
    import matplotlib.colorbar as cb
    import matplotlib.colors
    import matplotlib.pyplot
    for m, k in ((matplotlib.colors, "ListedColormap"), (matplotlib.colors, "BoundaryNorm"), (matplotlib.colors, "Normalize"), (matplotlib.pyplot, "get_cmap")):
        h.setattr(m, k, lambda *a, **kw: Dummy(sc))

    class Poly(Dummy):
        def __init__(self, verts, *a, **kw):
            self.__dict__.update(_screen=sc, verts=[[list(p) for p in v] for v in verts], kw=kw)
    bars = []
    h.setattr(matplotlib.collections, "PolyCollection", Poly)
    h.setattr(cb, "make_axes_gridspec", lambda ax, **k: (Dummy(sc), {}))
    for k in ("ColorbarBase", "Colorbar"):
        if hasattr(cb, k):
            h.setattr(cb, k, lambda *a, **kw: bars.append((a, kw)) or Dummy(sc))
    S = h.cls("multimodelselection", "MultimodelSelection")()
    nd, S.classes = h.p["dgs"], [list(c) for c in h.p["classes"]]
    dgs = [0.5 + i for i in range(nd)]
    S.dgs = h.arr(dgs)
    S.results = [None] * sum(len(c) for c in S.classes)
    nc = len(S.classes)
    pr = {dg: [h.real("p%d.%d" % (i, j), lo=0, hi=1) for j in range(nc)] for i, dg in enumerate(dgs)}
    S.classprobs = {dg: h.arr(v) for dg, v in pr.items()}
    kw = dict(h.p.get("kw", {}))
    scale, use, cl = kw.get("scale", 1.0), kw.get("dGs", dgs), kw.get("classes", range(nc))
    lo, hi = 0.0, 1.0
    if h.p.get("filter"):
        lo, hi = kw["probfilter"] = [h.real("lo", lo=0, hi=1), h.real("hi", lo=0, hi=1)]
    most = {c: [pr[dg][c] for dg in use] for c in cl}
    want = []
    for c in cl:
        if bool(h.orb(*[v >= lo for v in most[c]])) and bool(h.andb(*[v <= hi for v in most[c]])):
            want.append(c)
    if not want:
        return          # nothing to show
    S.plot3dclassprobs(**kw)
    ax = sc.all["3d"]
    h.prove(len(ax.polys) == 1, "one set of classes")
    poly, zs, zdir = ax.polys[0]
    h.prove(len(poly.verts) == len(want) == len(zs) and zdir == "y", "the classes within the limits of probability")
    h.prove(ax.labels == [str(c) for c in want] and h.exact([float(t) for t in ax.ticks], [float(z) for z in zs]), "labelled by class")
    for v, c in zip(poly.verts, want):
        top = [p for p in v]
        h.prove(len(top) >= nd + 2 or len(top) >= len(use) + 2, "the probabilities down to zero")
        pts = [(dg * scale, pr[dg][c]) for dg in use]
        h.prove(h.orb(*[h.andb(*[h.andb(h.eq(p[0], q[0]), h.eq(p[1], q[1])) for p, q in zip(top[i:], pts)]) for i in range(len(top) - len(pts) + 1)]), "probabilities of the class at each uncertainty, scaled")
        h.prove(h.andb(*[h.andb(h.orb(h.eq(p[0], pts[0][0]), h.eq(p[0], pts[-1][0])), h.eq(p[1], 0.0)) for p in (top[0], top[-1])]), "the probabilities down to zero")
    hl = kw.get("highlight", [])
    h.prove(len(ax.lines3) == len(hl) * len(want), "highlighted uncertainties")
    for dg in hl:
        for z, c in zip(zs, want):
            h.prove(h.orb(*[h.andb(h.eq(x, [dg * scale] * 2), h.eq(y, [z] * 2), h.eq(v, [0.0, pr[dg][c]])) for x, y, v in ax.lines3]), "highlighted at the probability of the class, scaled")
    h.prove(h.eq(list(ax.limits["x"]), [use[0] * scale, use[-1] * scale]), "all uncertainties asked for")
    h.prove(len(bars) == 1, "a scale of colours")


# -- clusters

def clusters(h):
    """Plots of a clustering."""
    sc = screen(h)
    n = h.p["n"]
    DC = h.cls("dataclusters", "DataClusters")
    xs = [1.0 + i for i in range(n)]
    ys = h.reals("y", n)
    for i in range(n):
        for j in range(i):
            h.assume(ys[i] != ys[j])
    res = h.p["res"]
    d, o = DC(h.arr(xs), h.arr(ys), res), DC(h.arr(xs), h.arr(ys), res)
    k = h.choice("steps", list(range(n + 2)))

    def advance(c, m):
        out = []
        for _ in range(m):
            try:
                next(c)
            except StopIteration:
                out.append("stop")
                break
            out.append(state(c))
        return out

    def state(c):
        f = lambda v: None if v is None else int(v)  # noqa: E731
        return ([[int(a), int(b)] for a, b in c.clusters], f(c.current_idx), f(c.lastcluster_idx), f(c.lastpoint_idx), c.status)
    a, b = advance(d, k), advance(o, k)
    h.prove(a == b, "the same clustering")
    before = state(d)
    if h.p["how"] == "animate":
        d.animate()
    else:
        d.plot("b-", linewidth=2)
        got = sc.shown("curve")
        h.prove(len(got) == 1 and curve(h, got, xs, ys), "the data are shown")
        vl = sc.shown("vline")
        want = []
        for p, q in before[0]:
            want += [(xs[p - 1] + xs[p]) / 2 if p > 0 else xs[0], (xs[q] + xs[q + 1]) / 2 if q + 1 < n else xs[-1]]
        at = [v[1][0] for v in vl]
        h.prove(sorted(set(float(v) for v in at)) == sorted(set(want)), "lines where clusters end")
    h.prove(state(d) == before, "the state of the clustering is restored")
    h.prove(h.exact(list(d.x), xs) and h.exact(list(d.y), ys), "the data are not changed")
    a, b = advance(d, n + 1), advance(o, n + 1)
    h.prove(a == b, "clustering goes on as if nothing had been shown")


# -- the plotting application

def figure(h):
    sc = screen(h)
    pm = h.mod("applications.plot")
    import mpl_toolkits.axisartist as AA
    from mpl_toolkits.axes_grid1.inset_locator import inset_axes
    h.setattr(AA, "Subplot", lambda fig, *a, **k: Axes(sc, "data"))
    h.stub(inset_axes, lambda parent, *a, **k: sc.new("inset%d" % len(sc.all)))
    return sc, pm


def segments(h, shown):
    out = []
    for k, xs, ys in shown:
        run = []
        for x, y in list(zip(xs, ys)) + [(None, None)]:
            if x is None or bool(h.isnan(x)):
                if len(run) > 1:
                    out.append(run)
                run = []
            else:
                run.append((x, y))
    return out


def marks(h, segs, want, label):
    h.prove(len(segs) == len(want), label + ": one line each")
    for x, a, b in want:
        h.prove(h.orb(*[h.andb(*[h.eq(p[0], x) for p in s], h.orb(h.andb(h.eq(s[0][1], a), h.eq(s[-1][1], b)), h.andb(h.eq(s[0][1], b), h.eq(s[-1][1], a)))) for s in segs]), label)


def compare(h):
    """Positions found and expected."""
    sc, pm = figure(h)
    k, ni = h.p["peaks"], h.p["ideal"]
    fl = flat(h)
    pos = [h.real("pos%d" % i) for i in range(k)]
    ext = h.cls("modelcluster", "ModelCluster")(h.cls("peaks.base", "Peaks")([actualize(h, fl, [x, 1.0]) for x in pos]), None, h.arr([1.0, 2.0]), h.arr([0.0, 0.0]), h.arr([1.0, 1.0]), None, None, [fl])
    kw, base, yi, ye, lo, hi = {}, 0.0, -1.0, 1.0, None, None
    if h.choice("heights", [False, True]):
        base, yi, ye = h.real("base"), h.real("yideal", hi=-0.1), h.real("yext", lo=0.1)
        kw.update(base=base, yideal=yi, yext=ye)
    if h.choice("limits", [False, True]):
        lo, hi = h.real("pmin"), h.real("pmax")
        kw.update(pmin=lo, pmax=hi)
    ip = None if ni is None else [h.real("ip%d" % i) for i in range(ni)]
    pm.comparepositions(ext, ip, **kw)
    want = [(x, base, base + ye) for x in pos if lo is None or (x >= lo and x <= hi)]
    want += [(x, base, base + yi) for x in ip or []]
    marks(h, segments(h, sc.shown("curve")), want, "a line at each position, peaks upwards and expected ones downwards")


def series(h):
    """Positions for each uncertainty."""
    sc, pm = figure(h)
    S = h.cls("peakstability", "PeakStability")()
    fl = flat(h)
    dgs = [h.real("dg%d" % i, pos=True) for i in range(len(h.p["sizes"]))]
    pos = [[h.real("pos%d.%d" % (i, j), pos=True) for j in range(k)] for i, k in enumerate(h.p["sizes"])]
    for a, b in zip(dgs[:-1], dgs[1:]):
        h.assume(a < b)
    S.results = [[dg, h.cls("peaks.base", "Peaks")([actualize(h, fl, [x, 1.0]) for x in p]), None, 0.1] for dg, p in zip(dgs, pos)]
    kw, scale, lim = {}, 1.0, {}
    if h.choice("scaled", [False, True]):
        kw["scale"] = scale = 2.5
    for k in h.choice("limits", h.p["limits"]):
        kw[k] = lim[k] = h.real(k, pos=True)
    pm.dgseries(S, **kw)
    want = []
    for dg, p in zip(dgs, pos):
        if (lim.get("dgmin") is None or dg >= lim["dgmin"]) and (lim.get("dgmax") is None or dg <= lim["dgmax"]):
            want += [(x, dg * scale) for x in p if (lim.get("pmin") is None or x >= lim["pmin"]) and (lim.get("pmax") is None or x <= lim["pmax"])]
    got = [(x, y) for _, cx, cy in sc.shown("curve") for x, y in zip(cx, cy)]
    h.prove(len(got) == len(want), "the peaks within the limits")
    for x, y in want:
        h.prove(h.orb(*[h.andb(h.exact(a, x), h.eq(b, y)) for a, b in got]), "each at its position and scaled uncertainty")


def fullplot(h):
    """The figure of an extraction or of several."""
    sc, pm = figure(h)
    n = h.p["n"]
    s = build(h, n, h.p["peaks"], "poly0")
    s["es"] = [0.25] * n
    e = extraction(h, s, "pdfpeakextraction.PDFPeakExtraction")
    MC = h.cls("modelcluster", "ModelCluster")
    S = None
    what = h.p["what"]
    if what == "initial":
        e.setvars(quiet=True, initial_peaks=s["peaks"])
    else:
        e.extracted = MC(s["peaks"], s["base"], e.x, e.y, e.effective_dy, None, e.error_method, e.pf)
        e.extraction_type = "extract_single"
    if what == "stability":
        S = h.cls("peakstability", "PeakStability")()
        S.setppe(e)
        fl = flat(h)
        other = h.cls("peaks.base", "Peaks")([actualize(h, fl, [1.25, 1.0])])
        S.results, S.current = [[0.25, s["peaks"], s["base"], 0.5], [0.75, other, s["base"], 0.5]], 0
    ext, was = e.extracted, snapshot(h, s["peaks"])
    style = {k: dict(kind=k) for k in ("obs", "fit", "ind", "res", "ep", "ip", "dg")}
    kw = dict(gobs_style=style["obs"], gfit_style=style["fit"], gind_style=style["ind"], gres_style=style["res"], ep_style=style["ep"], ip_style=style["ip"])
    hide = h.choice("hide", h.p["hide"])
    for k in hide:
        kw[k] = False
    scale = h.choice("scale", [1.0, 2.5])
    if scale != 1.0:
        kw["scale"] = scale
    if h.p.get("annotation") is False:
        kw["show_annotation"] = False
    user = h.choice("limits", h.p.get("limits", [()]))
    vals = {}
    for k in user:
        vals[k] = kw[k] = h.real(k, lo=-5, hi=5) if k != "max_gr" else h.real(k, lo=6, hi=10)
    ip = [1.25, h.real("ip")] if h.p.get("ideal") else None
    with h.quiet():
        pm.makeplot(e if S is None else S, ip, **kw)

    def of(k):
        return [ln for ax in sc.all.values() for ln in ax.lines if ln.kw.get("kind") == k]
    r = s["xs"]
    tot = [v * scale for v in expected(s, range(n), True)[1][1]]
    bl, hs = s["c"] * scale, [v * scale for v in s["hs"]]
    on = {k: "show_" + k not in hide for k in ("observed", "fit", "residual")}
    got = of("obs")
    h.prove(len(got) == int(on["observed"]), "the data are shown unless hidden")
    for ln in got:
        h.prove(len(ln.x) >= n and all(h.exact(x, v) for x, v in zip(ln.x, r)), "at the coordinates of the data")
        h.prove_eq(ln.y[:n], [v * scale for v in s["ys"]], "the data, scaled")
    got = of("fit")
    h.prove(len(got) == int(on["fit"]), "the model is shown unless hidden")
    for ln in got:
        h.prove(len(ln.x) > n and abs(float(ln.x[0]) - r[0]) < 1e-9 and all(a < b for a, b in zip(ln.x[:-1], ln.x[1:])) and float(ln.x[-1]) > r[-1] - (r[1] - r[0]), "over the range, finely")
        h.prove_eq(ln.y, [tot[0]] * len(ln.x), "the model, scaled")
    fills = of("ind")
    h.prove(len(fills) == (2 * len(hs) if "fill_individual" not in hide else 0), "each peak is shown unless hidden")
    for i, v in enumerate(hs if fills else []):
        pairs = list(zip(fills[::2], fills[1::2]))
        h.prove(h.orb(*[h.andb(*[h.eq(y, bl) for y in a.y], *[h.eq(y, bl + v) for y in b.y]) for p in pairs for a, b in (p, p[::-1])]), "each peak from the baseline, scaled")
    got = of("res")
    h.prove(len(got) == int(on["residual"]), "the residual is shown unless hidden")
    flats = [ln for ln in sc.all["data"].lines if not ln.kw and len(ln.x) == 2]
    for ln in got:
        h.prove(h.exact(ln.x, r), "at the coordinates of the data")
        res = [v * scale - t for v, t in zip(s["ys"], tot)]
        off = ln.y[0] - res[0]
        h.prove_eq([y - off for y in ln.y], res, "the residual, scaled")
        h.prove(h.orb(*[h.andb(*[h.eq(y, off) for y in f.y]) for f in flats]), "a line where it is zero")
    lim = sc.all["data"].limits
    h.prove(h.exact(list(lim["x"]), [r[0], r[-1]]), "the range shown is that of the data")
    lo, hi = lim["y"]
    for k, v in vals.items():
        h.assume(h.orb(v > 1e-3, v < -1e-3))
    if not user:
        for ln in of("obs") + of("fit") + of("res"):
            for y in ln.y:
                h.prove(h.andb(h.le(lo, y), h.le(y, hi)), "what is shown is within the axes")
        for a in of("res"):
            for b in of("obs") + of("fit"):
                h.prove(h.andb(*[h.le(p, q) for p in a.y for q in b.y[:n]]), "the residual is below the data")
    elif set(user) == {"ylo", "yhi"}:
        h.prove(h.exact([lo, hi], [vals["ylo"], vals["yhi"]]), "limits given are used")
    seg = [(ln.kind, ln.x, ln.y) for ln in of("ep") + of("ip")]
    marks(h, segments(h, seg), [(float(i), 0.0, 1.0) for i in range(len(hs))] + [(x, 0.0, -1.0) for x in ip or []], "positions found and expected")
    if S is not None:
        pts = [(x, y) for ax in sc.all.values() for ln in ax.lines for x, y in zip(ln.x, ln.y) if ln.kw.get("linestyle") == "none" and ln.kw.get("marker") == "o" and ln.kw.get("markersize") == 1]
        want = [(float(i), 0.25 * scale) for i in range(len(hs)) if r[0] <= i <= r[-1]] + [(1.25, 0.75 * scale)]
        h.prove(len(pts) == len(want) and all(h.orb(*[h.andb(h.exact(a, x), h.eq(b, y)) for a, b in pts]) for x, y in want), "positions of every result at its uncertainty")
    if h.p["what"] != "initial":
        h.prove(e.extracted is ext, "the result is not changed")
    unchanged(h, was, s["peaks"], "the peaks are not changed")
    h.prove(h.exact(list(e.x), s["xs"]) and h.exact(list(e.y), s["ys"]), "the data are not changed")


def positions(h):
    """Files of positions."""
    h.text()
    pm = h.mod("applications.plot")
    n = h.p["n"]
    v = [h.real("v%d" % i, pos=h.p.get("pos", True)) for i in range(n)]
    text = h.p["lead"] + "\n".join("%s" % x for x in v) + h.p["tail"]
    p = h.path("positions")
    with open(p, "w") as f:
        f.write(text)
    with h.quiet():
        got = pm.readcompare(p)
    if n == 0:
        h.prove(got is None, "nothing read from a file without numbers")
    else:
        h.prove(got is not None and len(got) == n and h.exact(list(got), v), "the positions in order")


def command(h):
    """The command line."""
    sc, pm = figure(h)
    log = []
    kind = h.choice("file", ["extraction", "results", "other"])
    opts = h.p["options"]
    P, S = h.cls("pdfpeakextraction", "PDFPeakExtraction"), h.cls("peakstability", "PeakStability")
    E = h.cls("srmiseerrors", "SrMiseFileError")

    def read(self, name):
        if kind != "extraction":
            raise E("not an extraction")
        log.append(("read", self, name))
        return self

    def load(self, name):
        if kind != "results":
            raise E("not results")
        log.append(("load", self, name))
    h.setattr(P, "read", read)
    h.setattr(S, "load", load)
    h.setattr(S, "setcurrent", lambda self, i: log.append(("model", self, i)))
    h.setattr(pm, "makeplot", lambda what, ip=None, **k: log.append(("plot", what, ip, k)))
    v = h.real("v", pos=True)
    h.text()
    path = h.path("d")
    with open(path, "w") as f:
        f.write("%s\n" % v)
    args = ["x.srmise"]
    if "compare" in opts:
        args += ["--compare", path]
    if "model" in opts:
        args += ["--model", "1"]
    if "output" in opts:
        args += ["-o", "o.png"]
    if "format" in opts:
        args += ["--format", "png"]
    if "show" in opts:
        args += ["--show"]
    h.setattr(sys, "argv", ["plot"] + args)
    with h.quiet():
        pm.main()
    plots = [e for e in log if e[0] == "plot"]
    if kind == "other":
        h.prove(not plots and not sc.log, "a file of neither kind is refused")
        return
    src = [e for e in log if e[0] in ("read", "load")]
    h.prove(len(src) == 1 and src[0][2] == "x.srmise" and isinstance(src[0][1], P if kind == "extraction" else S), "the file named is read")
    h.prove(len(plots) == 1 and plots[0][1] is src[0][1], "what was read is plotted")
    ip = plots[0][2]
    h.prove(ip is None if "compare" not in opts else len(ip) == 1 and h.exact(ip[0], v), "compared to the positions given")
    models = [e for e in log if e[0] == "model"]
    h.prove([(e[1], e[2]) for e in models] == ([(src[0][1], 1)] if "model" in opts and kind == "results" else []), "the model chosen, of several results")
    h.prove(not models or log.index(models[0]) < log.index(plots[0]), "chosen before plotting")
    saved = [e for e in sc.log if e[0] == "savefig"]
    h.prove(len(saved) == int("output" in opts), "saved exactly when asked to")
    for e in saved:
        h.prove(e[1][0] == "o.png" and e[2].get("format") == ("png" if "format" in opts else "eps"), "under the name and in the format given")
    h.prove([e[0] for e in sc.log].count("show") == int("show" in opts), "shown exactly when asked to")


def scenarios(tier):
    T = tier == "thorough"
    out = []
    for n in (1, 3) + ((4,) if T else ()):
        for k in (0, 1, 2) + ((3, 4) if T else (3,) if n == 3 else ()):
            for b in (None, "poly0", "poly1"):
                if b is None and k == 0:
                    continue
                out.append(("curves-%d-%d-%s" % (n, k, b or "none"), "plottable", dict(n=n, peaks=k, base=b), {}))
    out.append(("curves-2-0-none", "plottable", dict(n=2, peaks=0, base=None), {}))
    for c in ("peakextraction.PeakExtraction", "pdfpeakextraction.PDFPeakExtraction"):
        for x in (True, False):
            for k in (0, 1, 2):
                out.append(("drawn-%s-%s-%d" % (c.split(".")[1], "extracted" if x else "initial", k), "drawn", dict(n=3, peaks=k, cls=c, extracted=x), {}))
    for i, sz in enumerate([[1], [2, 1], [0, 2]] + [[1, 2, 1]] + ([[2, 3, 1, 2]] if T else [])):
        w = [[0]] if len(sz) == 1 else [[1, 0], [0], [1, 1]] + ([[2, 0, 1]] if len(sz) > 2 else [])
        out.append(("stability%d" % i, "stability", dict(sizes=sz, which=w), {}))
    out.append(("stability-multimodel", "stability", dict(sizes=[2, 1], which=[[1]], cls="multimodelselection.MultimodelSelection"), {}))
    for i, (sz, nd) in enumerate([([1, 2], 2), ([2, 1, 1], 3), ([1], 1)] + ([([1, 2, 1, 2], 4)] if T else [])):
        out.append(("probs%d" % i, "probs", dict(sizes=sz, dgs=nd, orders=len(sz) > 2), {}))
    out.append(("probs-argsort", "probs", dict(sizes=[1, 2, 1], dgs=3 if T else 3, orders=True), {}))
    C = [([1, 2], 2, [[0], [1]]), ([1, 2], 2, [[0, 1]]), ([2, 1, 1], 2, [[0, 2], [1]]), ([1, 2, 1], 1, [[1], [0, 2]]), ([1, 2], 3, [[1], [0]])]
    if T:
        C += [([1, 2, 1], 3, [[0, 1], [2]]), ([2, 1, 1], 3, [[0], [1], [2]])]
    for i, (sz, nd, cl) in enumerate(C):
        out.append(("classprobs%d" % i, "classprobs", dict(sizes=sz, dgs=nd, classes=cl), {}))
    for i, (cl, nd, p) in enumerate([([[0], [1]], 2, {}), ([[0, 2], [1], [3]], 3, dict(kw=dict(scale=2.5))), ([[0], [1, 2]], 3, dict(kw=dict(dGs=[0.5, 2.5], highlight=[0.5], scale=2.0))),
                                     ([[0, 1], [2], [3]], 2, dict(filter=1)), ([[0], [1]], 2, dict(filter=1, kw=dict(class_size="fraction"))), ([[0], [1, 2], [3]], 2, dict(kw=dict(classes=[2, 0], norm="full", highlight=[0.5, 1.5]))),
                                     ([[0], [1]], 1, dict(kw=dict(class_size="fraction", norm="full", cmap="hot", title=False)))]):
        out.append(("surface%d" % i, "surface", dict(classes=cl, dgs=nd, **p), {}))
    for n in (1, 2, 3, 4) + ((5,) if T else ()):
        for res in (0.5, 1.5) + ((2.5,) if T or n == 4 else ()):
            for how in ("animate", "plot"):
                out.append(("clusters-%d-%g-%s" % (n, res, how), "clusters", dict(n=n, res=res, how=how), {"weight": n}))
    for k in (0, 1, 2) + ((3,) if T else ()):
        for ni in (None, 0, 1, 2):
            out.append(("compare-%d-%s" % (k, ni), "compare", dict(peaks=k, ideal=ni), {}))
    L = [(), ("dgmin",), ("dgmax",), ("pmin", "pmax"), ("dgmin", "dgmax", "pmin", "pmax")]
    for sz in ([1], [2, 1], [1, 0, 2]) + (([2, 1, 2],) if T else ()):
        out.append(("series-%s" % "-".join(map(str, sz)), "series", dict(sizes=sz, limits=L), {}))
    hide = [(), ("show_observed",), ("show_fit",), ("show_residual",), ("show_individual",), ("fill_individual",), ("show_fit", "show_individual")]
    for what in ("extraction", "initial", "stability"):
        for k in (0, 1, 2):
            out.append(("figure-%s-%d" % (what, k), "fullplot", dict(n=3, peaks=k, what=what, hide=hide if what == "extraction" and k == 1 else [()]), {"weight": 2}))
    out.append(("figure-ideal", "fullplot", dict(n=3, peaks=1, what="extraction", hide=[()], ideal=1, annotation=False), {}))
    out.append(("figure-limits", "fullplot", dict(n=3, peaks=1, what="extraction", hide=[()], limits=[("ylo", "yhi"), ("min_gr", "max_gr")]), {}))
    for i, (lead, n, tail) in enumerate([("", 2, "\n"), ("# positions\n", 2, "\n"), ("# a\n# b 3\n", 1, ""), ("", 3, "\n\n"), ("none\n", 0, ""), ("", 0, "")]):
        out.append(("positions%d" % i, "positions", dict(lead=lead, n=n, tail=tail), {}))
    for i, o in enumerate([(), ("compare",), ("model",), ("output",), ("output", "format"), ("show",), ("compare", "model", "output", "format", "show")]):
        out.append(("command%d" % i, "command", dict(options=o), {}))
    return out
