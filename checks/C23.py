"""The command line: which extraction is set up, and what is done with it."""
import contextlib
import io
import optparse
import argparse
import sys

from checks.funcs import *  # noqa: F401,F403
from checks.C17 import splines
from symex import core

FUNCTIONS = ["applications.extract.main/parsepars/_baseline_namespace/_peak_namespace/_modelevaluator_namespace", "pdfpeakextraction.PDFPeakExtraction.setvars/defaultvars", "peakextraction.PeakExtraction.setvars/defaultvars"]
BOUNDS = ("command lines with every single option, every pair of options that set different things and several longer lines, all real values of their numbers (symbolic numbers travel through the text of the command line), "
          "each parameter constant or free; data of 3 points, all values and uncertainties; the file is a PDF or a saved extraction, whose reading, like extraction, saving and plotting, is a stand-in that records the call")
VARS = ("effective_dy", "rng", "pf", "initial_peaks", "baseline", "cres", "error_method", "qmax", "supersample", "nyquist", "scale")


def convert(v):
    """Numbers read from the command line back to what they stand for."""
    if isinstance(v, float):
        t = core.fromtext(repr(v), v)
        return v if t is None else t
    if isinstance(v, (list, tuple)):
        return type(v)(convert(x) for x in v)
    return v


class Line:
    """A command line, and what it has to do."""

    def __init__(self, h):
        self.h, self.args, self.vars = h, [], {}
        self.uncertainty = None       # (mode, value)
        self.bseq = None

    def num(self, v):
        return repr(float(v))

    def value(self, name, **k):
        """A number of the command line: (text, value)."""
        v = self.h.real(name, **k)
        return self.num(v), v


def scene(h, saved):
    """Stand-ins for files, extraction and plots.  The data are symbolic."""
    s = {"log": [], "made": [], "files": {}}
    P = h.cls("pdfpeakextraction", "PDFPeakExtraction")
    FE = h.cls("srmiseerrors", "SrMiseFileError")
    DE = h.cls("srmiseerrors", "SrMiseDataFormatError")
    m = h.mod("pdfpeakextraction")
    x = [1.0, 1.5, 2.5]
    y = h.reals("y", 3)
    how = h.p.get("dy", "all")
    d = h.reals("dy", 3, pos=True) if how == "all" else None if how == "none" else [0.0] * 3
    fq, rq = h.real("qdata", pos=True), h.choice("reported", ["some", "zero"] if h.p.get("zero") else ["some"])
    rq = h.real("qrep", pos=True) if rq == "some" else 0.0
    h.stub(m.find_qmax, lambda *a, **k: (fq, 0.0))
    prior = {}
    if saved:
        prior = {"rng": [1.0, h.real("rng1", lo=1.75, hi=2.5)], "cres": h.real("cres0", pos=True), "qmax": h.real("qmax0", pos=True), "supersample": h.real("ss0", pos=True), "nyquist": h.p.get("prior-nyquist", True),
                 "scale": h.p.get("prior-scale", True), "pf": [peakfn(h, "gaussian", 0.3)], "error_method": h.cls("modelevaluators.aicc", "AICc"), "baseline": actualize(h, peakfn(h, "poly0"), [h.real("b0")]), "effective_dy": h.reals("edy", 3, pos=True)}

    def load(self):
        P.setdata(self, h.arr(x), h.arr(y), None, None if d is None else h.arr(d))
        if how == "none":
            self.dy = None
        self.qmax_reportedbypdf = rq
        for k, v in prior.items():
            setattr(self, k, v if k not in ("rng", "effective_dy") else list(v) if k == "rng" else h.arr(v))

    def fail():
        # the errors of the real routines: unwritable paths, nothing to summarise
        if h.p.get("unwritable"):
            i = len([e for e in s["log"] if e[0] in ("write", "writepwa")])
            raise h.choice("error%d" % i, [FE, OSError, h.cls("srmiseerrors", "SrMiseError")])("disk full")
    s["fail"] = fail

    class Rec(P):
        def __init__(self, *a, **k):
            P.__init__(self, *a, **k)
            s["made"].append(self)

        def read(self, f):
            s["log"].append(("read", f))
            if f in s["files"]:
                return s["files"][f](self)
            if not saved:
                raise {"format": DE("x"), "file": FE("x"), "other": UnboundLocalError("x")}[h.p.get("unreadable", "format")]
            load(self)
            return self

        def loadpdf(self, f):
            s["log"].append(("loadpdf", f))
            load(self)

        def extract(self, **k):
            s["log"].append(("extract", self.state(), dict(k)))
            s["cov"] = Cov()
            return s["cov"]

        def write(self, f):
            s["log"].append(("write", f, self.state()))
            s["fail"]()

        def writepwa(self, f):
            s["log"].append(("writepwa", f, self.state()))
            s["fail"]()

        def __str__(self):
            s["log"].append(("summary", self.state()))
            return "the summary"

        def state(self):
            return {k: list(getattr(self, k)) if k in ("rng", "pf") else getattr(self, k) for k in VARS}

    class Cov:
        def __str__(self):
            s["log"].append(("covariance",))
            return "the covariance"

    class Plt:
        def __getattr__(self, k):
            return lambda *a, **kk: s["log"].append(("plt." + k,))
    ex = h.mod("applications.extract")
    h.setattr(m, "PDFPeakExtraction", Rec)
    top = h.mod("")
    if getattr(top, "PDFPeakExtraction", None) is P:
        h.setattr(top, "PDFPeakExtraction", Rec)
    if getattr(ex, "PDFPeakExtraction", None) is P:
        h.setattr(ex, "PDFPeakExtraction", Rec)
    if hasattr(ex, "plt"):
        h.setattr(ex, "plt", Plt())
    import matplotlib.pyplot
    h.setattr(matplotlib.pyplot, "show", lambda *a, **k: s["log"].append(("plt.show",)))
    h.setattr(h.mod("applications.plot"), "makeplot", lambda e, *a, **k: s["log"].append(("makeplot", e)))
    lg = h.mod("srmiselog")
    h.setattr(lg, "setlevel", lambda v: s["log"].append(("level", v)))
    h.setattr(lg, "liveplotting", lambda *a, **k: s["log"].append(("live", a, k)))
    s["load"], s["Rec"], s["x"], s["y"], s["d"], s["prior"] = load, Rec, x, y, d, prior
    return s


def command(h, s, args):
    """Runs it: 'ok' or the way it ended; what it printed."""
    h.text()
    if h.mode == "sym":
        for c in (optparse.OptionParser, argparse.ArgumentParser):
            def wrap(orig):
                def parse_args(self, *a, **k):
                    r = orig(self, *a, **k)
                    for v in r if isinstance(r, tuple) else (r,):
                        if hasattr(v, "__dict__"):
                            for n, z in list(vars(v).items()):
                                setattr(v, n, convert(z))
                    return r
                return parse_args
            h.setattr(c, "parse_args", wrap(c.parse_args))
    h.setattr(sys, "argv", ["srmise"] + args)
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            h.mod("applications.extract").main()
            r = "ok"
        except SystemExit as e:
            r = "exit %s" % e.code
    return r, out.getvalue()


def option(h, line, k, s):
    """Adds one option (of those for k) to the line."""
    V = line.vars
    a = line.args
    if k == "rng":
        t0, v0 = line.value("lo", lo=1.0, hi=1.5)
        t1, v1 = line.value("hi", lo=2.0, hi=2.5)
        a += ["--range", t0, t1]
        V["rng"] = [v0, v1]
    elif k == "qmax":
        how = h.choice("qmax kind", ["value", "zero", "automatic"])
        if how == "value":
            t, v = line.value("qmax", pos=True)
            a += ["--qmax", t]
            V["qmax"] = v
        else:
            a += ["--qmax", "0" if how == "zero" else how]
            V["qmax"] = 0.0 if how == "zero" else how
    elif k in ("nyquist", "scale"):
        on = h.choice(k, [True, False])
        a += ["--" + k if on else "--no-" + k]
        V[k] = on
    elif k in ("cres", "supersample"):
        t, v = line.value(k, pos=True)
        a += ["--" + k, t]
        V[k] = v
    elif k == "pf":
        how = h.choice("pf kind", ["gaussian", "overr", "keyword", "ripples"])
        t, v = line.value("W", pos=True)
        if how == "ripples":
            u, q = line.value("Q", pos=True)
            a += ["--pf", "TerminationRipples(GaussianOverR(%s), %s)" % (t, u)]
            V["pf"] = [h.cls("peaks.terminationripples", "TerminationRipples")(peakfn(h, "gaussianoverr", v), q)]
        else:
            a += ["--pf", {"gaussian": "Gaussian(%s)", "overr": "GaussianOverR(%s)", "keyword": "GaussianOverR(maxwidth=%s)"}[how] % t]
            V["pf"] = [peakfn(h, "gaussian" if how == "gaussian" else "gaussianoverr", v)]
    elif k == "me":
        n = h.choice("me", ["AIC", "AICc"])
        a += [h.choice("opt", ["--me", "-m"]), n]
        V["error_method"] = h.cls("modelevaluators." + n.lower(), n)
    elif k.startswith("b"):
        baseline(h, line, k, s)
    elif k.startswith("dg"):
        if k == "dg":
            how, given = None, True
        elif k == "dgmode":
            how, given = h.choice("mode", ["absolute", "max-fraction", "ptp-fraction", "dG-fraction"]), True
        else:
            how, given = h.choice("mode", ["max-fraction", "ptp-fraction", "dG-fraction"]), False
        v = None
        if how is not None:
            a += ["--dg-mode", how]
        if given:
            t, v = line.value("dg", pos=True)
            a += ["--dg", t]
        line.uncertainty = (how or "absolute", v)


def baseline(h, line, k, s):
    V, a = line.vars, line.args

    def par(name, **kw):
        t, v = line.value(name, **kw)
        c = h.choice(name + " constant", [False, True])
        return t + ("c" if c else ""), v, not c
    if k == "bpoly0" or k == "bpoly1" or k == "bpoly2":
        ps = [par("a%d" % i) for i in reversed(range(int(k[-1]) + 1))]
        a += ["--" + k] + [p[0] for p in ps]
        V["baseline"] = peakfn(h, "poly" + k[-1]).actualize(h.arr([p[1] for p in ps]), "internal", free=[p[2] for p in ps])
    elif k == "bcrystal":
        t, v, f = par("rho")
        a += ["--bcrystal", t]
        V["baseline"] = peakfn(h, "poly1").actualize(h.arr([-4 * h.pi * v, 0.0]), "internal", free=[f, False])
    elif k == "bspherical":
        ps = [par("s", pos=True), par("r", pos=True)]
        a += ["--bspherical"] + [p[0] for p in ps]
        V["baseline"] = peakfn(h, "nano").actualize(h.arr([p[1] for p in ps]), "internal", free=[p[2] for p in ps])
    elif k == "bseq":
        f = h.path("seq")
        with open(f, "w") as o:
            o.write("0.5 1.25\n1.75 -2.0\n2.5 0.25\n3.0 0.5\n")
        splines(h)
        a += ["--bseq", f]
        fs = h.cls("baselines.fromsequence", "FromSequence")(h.np.array([0.5, 1.75, 2.5, 3.0]), h.np.array([1.25, -2.0, 0.25, 0.5]))
        V["baseline"] = fs.actualize([], "internal")
    elif k == "bsrmise":
        how = h.choice("bsrmise", ["extracted", "both", "only"])
        b = peakfn(h, "poly1").actualize(h.arr([h.real("e1"), h.real("e0")]), "internal", free=[True, False])
        other = peakfn(h, "poly0").actualize(h.arr([1.0]), "internal")

        class Found:
            baseline = b

        def load(self):
            self.baseline = {"extracted": None, "both": other, "only": b}[how]
            self.extracted = Found() if how != "only" else None
        s["files"]["saved.srmise"] = load
        a += ["--bsrmise", "saved.srmise"]
        V["baseline"] = b
    elif k == "bfunc":
        how = h.choice("baseline", ["Polynomial(degree=1)", "Polynomial(0)", "NanoSpherical()", "FromSequence([0.5, 1.0, 2.0, 3.0], [1.0, 0.0, 0.5, 0.25])"][:h.p.get("kinds", 4)])
        a += ["--baseline", how]
        if how.startswith("F"):
            splines(h)
            V["baseline"] = h.cls("baselines.fromsequence", "FromSequence")(h.np.array([0.5, 1.0, 2.0, 3.0]), h.np.array([1.0, 0.0, 0.5, 0.25]))
        else:
            V["baseline"] = peakfn(h, {"Polynomial(degree=1)": "poly1", "Polynomial(0)": "poly0"}.get(how, "nano"))


def uncertainty(h, line, s):
    """The uncertainty documented."""
    y, d = s["y"], s["d"]
    if line.uncertainty is None:
        return list(d) if h.p.get("dy", "all") == "all" else ("max", 0.05)
    mode, v = line.uncertainty
    if mode == "absolute":
        return [v] * 3
    if mode == "dG-fraction":
        return [(1.0 if v is None else v) * e for e in d]
    v = 0.05 if v is None else v
    return ("max" if mode == "max-fraction" else "ptp"), v


def samefn(h, a, b, label):
    h.prove(type(a) is type(b), label)
    for k in ("maxwidth", "qmax", "extension", "supersample", "degree"):
        h.prove(hasattr(a, k) == hasattr(b, k), label)
        if hasattr(a, k):
            h.prove_eq(getattr(a, k), getattr(b, k), label)
    if getattr(a, "base", None) is not None:
        samefn(h, a.base, b.base, label)
    if type(a).__name__ == "FromSequence":
        h.prove_eq(list(a.spline._data[0]) if hasattr(a.spline, "_data") else list(a.spline.x), list(b.spline._data[0]) if hasattr(b.spline, "_data") else list(b.spline.x), label)
        h.prove_eq(list(a.spline._data[1]) if hasattr(a.spline, "_data") else list(a.spline.y), list(b.spline._data[1]) if hasattr(b.spline, "_data") else list(b.spline.y), label)


def samebaseline(h, a, b, label):
    if a is None or b is None:
        h.prove(a is b, label)
        return
    if not hasattr(b, "pars"):
        h.prove(not hasattr(a, "pars"), label)
        return samefn(h, a, b, label)
    h.prove(hasattr(a, "pars") and len(a.pars) == len(b.pars), label)
    samefn(h, a.owner(), b.owner(), label)
    h.prove_eq(list(a.pars), list(b.pars), label)
    h.prove([bool(f) for f in a.free] == [bool(f) for f in b.free], label + " (constant)")
    h.prove(bool(a.removable) == bool(b.removable), label)


def samestate(h, st, ref, line, s):
    for k in VARS:
        a, b = st[k], ref[k]
        label = "%s is %s" % (k, "what was asked for" if k in line.vars or k == "effective_dy" else "left alone")
        if k in ("effective_dy", "rng"):
            if k == "effective_dy":
                want = uncertainty(h, line, s)
                if isinstance(want, tuple):
                    y = s["y"]
                    for v in y:
                        g = [v * want[1]] if want[0] == "max" else [(v - u) * want[1] for u in y]
                        h.prove(h.andb(*[a[0] >= z for z in g]), label)
                    h.prove(h.orb(*[h.eq(a[0], (v if want[0] == "max" else v - u) * want[1]) for v in y for u in (y if want[0] == "ptp" else y[:1])]), label)
                    want = [a[0]] * 3
                b = want
            h.prove(len(a) == len(b), label)
            h.prove_eq(list(a), list(b), label)
        elif k in ("cres", "qmax", "supersample"):
            h.prove_eq(a, b, label)
        elif k in ("nyquist", "scale"):
            h.prove(bool(a) == bool(b), label)
        elif k == "pf":
            h.prove(len(a) == len(b), label)
            for f, g in zip(a, b):
                samefn(h, f, g, label)
        elif k == "initial_peaks":
            h.prove(len(a) == len(b), label)
        elif k == "error_method":
            h.prove(a is b, label)
        else:
            samebaseline(h, a, b, label)


def options(h):
    s = scene(h, h.p.get("saved"))
    line = Line(h)
    for k in h.p["options"]:
        option(h, line, k, s)
    act = h.p.get("extract")
    if act is not None:
        line.args += ["--extract" if act else "--no-extract"]
    fn = "the.file"
    args = [fn] + line.args if h.p.get("first", True) else line.args + [fn]
    r, out = command(h, s, args)
    h.prove(r == "ok", "the command runs")
    log = [e for e in s["log"] if e[0] not in ("level",)]
    reads = [e[:2] for e in log if e[0] in ("read", "loadpdf") and e[1] not in s["files"]]
    h.prove(reads == ([("read", fn)] if h.p.get("saved") else [("read", fn), ("loadpdf", fn)]), "the file is read as a saved extraction, failing that as a PDF")
    rest = [e for e in log if e[0] not in ("read", "loadpdf")]
    doing = act is not False
    names = [e[0] for e in rest]
    h.prove(names.count("extract") == int(doing), "peaks are extracted exactly when asked for")
    h.prove(names.count("summary") >= 1, "the summary is printed")
    h.prove(not set(names) & {"write", "writepwa", "makeplot", "plt.show", "live"}, "nothing is saved or plotted unless asked for")
    if doing:
        e = rest[names.index("extract")]
        h.prove(e[2] == {}, "a plain extraction")
        h.prove(names.index("summary") > names.index("extract"), "the summary is that of the result")
        h.prove("covariance" in names, "the uncertainties of the result are printed")
    # the same settings made in a script
    ref = s["Rec"]()
    s["load"](ref)
    ed = uncertainty(h, line, s)
    ref.setvars(quiet=True, effective_dy=h.arr([1.0] * 3) if isinstance(ed, tuple) else h.arr(ed), **{k: v for k, v in line.vars.items()})
    for e in rest:
        if e[0] in ("extract", "summary"):
            samestate(h, e[1], ref.state(), line, s)
            for k in ("rng", "cres", "supersample", "nyquist", "scale"):
                if k in line.vars:
                    h.prove_eq(e[1][k], line.vars[k], "%s is the value given" % k)
            if "qmax" in line.vars and line.vars["qmax"] != "automatic":
                h.prove_eq(e[1]["qmax"], line.vars["qmax"], "qmax is the value given")


def output(h):
    """Saving, summaries and plots."""
    s = scene(h, False)
    args = []
    want = []
    ex = h.choice("extract", [True, False])
    if not ex:
        args += ["--no-extract"]
    for k, opt in (("write", "--save"), ("writepwa", "--pwa")):
        if h.choice(k, [False, True]):
            args += [opt, k + ".out"]
            want.append((k, k + ".out"))
    plot = h.choice("plot", ["no", "-p", "--plot", "-l", "--liveplot", "-l -w", "-p -l"])
    if plot != "no":
        args += plot.split()
    lev = h.choice("level", ["no", "-i", "-q", "-s", "-v"])
    if lev != "no":
        args += [lev]
    r, out = command(h, s, ["f"] + args)
    h.prove(r == "ok", "the command runs")
    log = s["log"]
    h.prove([e[1] for e in log if e[0] == "level"] == [{"no": "warning", "-i": "info", "-q": "warning", "-s": "critical", "-v": "debug"}[lev]], "the detail asked for")
    h.prove(sorted(e[:2] for e in log if e[0] in ("write", "writepwa")) == want, "the files asked for are written, also if one cannot be")
    names = [e[0] for e in log]
    h.prove(names.count("extract") == int(ex), "peaks are extracted exactly when asked for")
    if ex:
        i = names.index("extract")
        h.prove(all(names.index(k[0]) > i for k in want), "what is saved is the result")
        h.prove("covariance" in names[i:], "the uncertainties of the result are printed")
    h.prove("the summary" in out, "the summary is printed")
    main = [e for e in s["made"]]
    h.prove([e[1] is main[0] for e in log if e[0] == "makeplot"] == ([True] if "-p" in plot.split() or plot == "--plot" else []), "the result is plotted exactly when asked for")
    h.prove(names.count("plt.show") == int(plot != "no"), "plots are shown exactly when asked for")
    live = [e for e in log if e[0] == "live"]
    h.prove(len(live) == int("-l" in plot.split() or plot == "--liveplot"), "live plots exactly when asked for")
    if live:
        a = list(live[0][1]) + list(live[0][2].values())
        h.prove(a == [True, "-w" in plot.split()] or (a == [True] and "-w" not in plot.split()), "waiting exactly when asked for")
        h.prove(not ex or names.index("live") < names.index("extract"), "live plots are on when extracting")


def refused(h):
    s = scene(h, False)
    args = h.p["args"]
    r, out = command(h, s, args)
    h.prove(r == ("ok" if h.p["how"] == "message" else "exit 2" if h.p["how"] == "error" else "exit 0"), "ends as documented")
    h.prove(not [e for e in s["log"] if e[0] in ("extract", "write", "writepwa", "makeplot", "loadpdf", "summary")], "nothing is done")
    if h.p["how"] == "message":
        h.prove(len(out) > 0, "it says why")


SINGLE = ["rng", "qmax", "nyquist", "scale", "cres", "supersample", "pf", "me", "bpoly0", "bpoly1", "bpoly2", "bcrystal", "bspherical", "bseq", "bsrmise", "bfunc", "dg", "dgmode", "dgdefault"]


def scenarios(tier):
    q = tier == "quick"
    out = []

    def add(name, **p):
        out.append((name, "options", p, {"max_validate": 60}))
    for k in SINGLE + [None]:
        o = [k] if k else []
        add("%s-pdf" % (k or "none"), options=o, zero=k in ("nyquist", "qmax", None))
        add("%s-saved" % (k or "none"), options=o, saved=True, first=False, extract=True)
        if k is None or k.startswith("dg"):
            for d in ("none", "zero"):
                if k != "dgmode" and k != "dgdefault":
                    add("%s-dy%s" % (k or "none", d), options=o, dy=d)
    for u in ("file", "other"):
        add("unreadable-" + u, options=[], unreadable=u)
    add("noextract", options=["rng"], extract=False)
    add("prior-flags", options=["nyquist", "scale"], saved=True, **{"prior-nyquist": False, "prior-scale": False})
    base = [["rng"], ["qmax"], ["nyquist"], ["scale"], ["cres"], ["supersample"], ["pf"], ["me"], ["bpoly1"], ["bfunc"], ["dgmode"], ["dg"]]
    for i, a in enumerate(base):
        for b in base[i + 1:]:
            if a[0].startswith("b") and b[0].startswith("b") or a[0].startswith("dg") and b[0].startswith("dg"):
                continue
            if q and (len(a[0]) + len(b[0])) % 2 and a[0] != "nyquist":
                continue
            add("pair-%s-%s" % (a[0], b[0]), options=a + b, kinds=2, saved=(i % 2 == 0))
    add("many1", options=["rng", "cres", "supersample", "bcrystal", "dg"])
    add("many2", options=["nyquist", "scale", "me", "dg"], first=False)
    out.append(("output", "output", {}, {"max_validate": 60}))
    out.append(("unwritable", "output", {"unwritable": True}, {"max_validate": 60}))
    for i, (a, how) in enumerate([([], "error"), (["a", "b"], "error"), (["f", "--cres", "abc"], "error"), (["f", "--dg-mode", "other"], "error"), (["f", "--range", "1"], "error"), (["f", "--nothing"], "error"),
                                  (["--help"], "exit"), (["--version"], "exit"), (["f", "--pf", "Nothing(1.0)"], "message"), (["f", "--me", "Nothing"], "message"), (["f", "--baseline", "Nothing()"], "message"),
                                  (["f", "--baseline", "Polynomial("], "message"), (["f", "--pf", "Gaussian(0)"], "message")]):
        out.append(("refused%d" % i, "refused", {"args": a, "how": how}, {}))
    return out
