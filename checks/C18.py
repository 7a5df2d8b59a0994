"""Reading and writing PDF data files."""
from checks.funcs import *  # noqa: F401,F403
from checks.C17 import near, nearall

FUNCTIONS = ["pdfdataset.PDFDataSet.clear/read/readStr/write/writeStr/copy/setvar/getvar"]
BOUNDS = ("up to 3 (quick) / 4 lines of data with 2 to 5 columns each, chosen line by line, all values of the numbers in them, or nan/inf in their place; header values: all numbers, in the spellings listed in the scenarios; "
          "two entries of metadata; round trips of up to 2 / 3 points")
HEAD = ("qmax", "qdamp", "qbroad", "dscale", "spdiameter")
DEFAULT = dict(stype="X", qmax=0.0, qdamp=0.001, qbroad=0.0, spdiameter=None, dscale=1.0)


def dataset(h, name="d"):
    return h.cls("pdfdataset", "PDFDataSet")(name)


def num(v):
    return "%s" % v


def default(h, d, skip=()):
    for k, v in DEFAULT.items():
        if k not in skip:
            g = getattr(d, k)
            h.prove(g == v if v is None or isinstance(v, str) else h.exact(g, v), "%s has its default" % k)


def columns(h):
    """Any number of columns, line by line."""
    h.text()
    n = h.p["n"]
    r = [h.real("r%d" % i, pos=True) for i in range(n)]
    G = [h.real("G%d" % i) if i == 0 else h.real("G%d" % i, pos=True) for i in range(n)]
    rows, dr, dG = [], [], []
    for i in range(n):
        k = h.choice("columns%d" % i, h.p["cols"])
        w = [r[i], G[i]]
        extra = []
        for j in range(2, k):
            what = h.choice("entry%d.%d" % (i, j), h.p["entries"]) if j < 4 else "number"
            extra.append(h.real("u%d.%d" % (i, j)) if what == "number" else what)
        dr.append(extra[0] if len(extra) > 0 else None)
        dG.append(extra[1] if len(extra) > 1 else None)
        rows.append(h.p["sep"].join(num(v) for v in w + extra))
    text = h.p["header"] + "\n".join(rows) + h.p["tail"]
    d = dataset(h)
    if h.p.get("used"):
        d.readStr("qmax = 12.0 neutron\nqdamp=0.5 qbroad=0.25 dscale=3 spdiameter=2 temp=300\n## metadata\na=5\n##### start data\n1 2 3 4\n2 3 4 5\n3 4 5 6\n")
    res = d.readStr(text)
    h.prove(res is d, "reading returns the data set")
    h.prove(len(d.robs) == n and h.exact(list(d.robs), r), "r column in order")
    h.prove(len(d.Gobs) == n and h.exact(list(d.Gobs), G), "G column in order")
    for name, col in (("drobs", dr), ("dGobs", dG)):
        got = getattr(d, name)
        h.prove(len(got) == n, name + " has one entry per point")
        valid = all(v is not None and not isinstance(v, str) for v in col) and bool(h.andb(*[v > 0 for v in col]))
        h.prove(h.exact(list(got), col if valid else [0.0] * n), name + " only if all are present and positive, zeros otherwise")
    h.prove(h.andb(h.exact(d.rmin, r[0]), h.exact(d.rmax, r[-1])), "rmin and rmax from the data")
    if not h.p["header"].strip("#\n startd"):
        default(h, d)
        h.prove(d.metadata == {}, "no metadata")


def header(h):
    """Named values."""
    h.text()
    names = h.p["names"]             # attribute -> spelling with %s
    vals = {k: h.real(k, pos=h.p.get("pos", False)) for k in names}
    parts = [names[k] % num(vals[k]) for k in names]
    text = "History\n" + h.p["sep"].join(parts) + "\n" + h.p.get("more", "") + h.p.get("marker", "##### start data\n#L r G\n") + "1.0 2.0\n1.5 2.5\n"
    d = dataset(h)
    if h.p.get("file"):
        p = h.path("x.gr")
        with open(p, "w") as f:
            f.write(text)
        h.prove(d.read(p) is d, "reading returns the data set")
        h.prove(d.filename == h.mod("pdfdataset").os.path.abspath(p), "name of the file")
    else:
        d.readStr(text)
        h.prove(d.filename is None, "no file")
    want = dict(DEFAULT, stype=h.p.get("stype", "X"))
    meta = dict(h.p.get("meta", {}))
    for k, v in vals.items():
        if k in HEAD:
            want[k] = v
        else:
            meta[k] = v
    for k, v in want.items():
        g = getattr(d, k)
        h.prove(g == v if v is None or isinstance(v, str) or g is None else h.exact(g, v), k + " from the header")
    h.prove(set(d.metadata) == set(meta), "metadata named in the header")
    for k in meta:
        h.prove(h.exact(d.metadata[k], meta[k]), "value of metadata")
    h.prove([float(v) for v in d.robs] == [1.0, 1.5] and [float(v) for v in d.Gobs] == [2.0, 2.5], "the data")


BAD = ["", "\n", "abc", "1.0", "1.0 2.0\n3.0", "1.0 abc", "abc 1.0", "1.0 2.0\n\n3.0 4.0", "1.0 2.0\n# comment\n3.0 4.0", "1.0 2.0 x", "1.0 2.0 0.1 x", "1.0 2.0\n3.0 4.0.0", "1,0 2,0", "1.0 2.0 0.1 0.1\n2.0 3.0 0.1 --"]


def refused(h):
    """Data which are not numbers."""
    h.text()
    b = h.choice("flaw", BAD)
    lead = h.choice("marker", ["##### start data\n#L r G\n", "qmax = 20\n##### start data\n"])
    v = h.real("v", pos=True)
    text = lead + b.replace("1.0", num(v))
    d = dataset(h)
    if h.choice("file", [False, True]):
        p = h.path("x.gr")
        with open(p, "w") as f:
            f.write(text)
        h.prove(h.raises(lambda: d.read(p), h.cls("srmiseerrors", "SrMiseFileError")) is not None, "a file without proper data is refused")
    else:
        h.prove(h.raises(lambda: d.readStr(text), h.cls("pdfdataset", "PDFDataFormatError")) is not None, "text without proper data is refused")


def filled(h, n, meta):
    d = dataset(h)
    for k in ("robs", "Gobs", "drobs", "dGobs"):
        setattr(d, k, [h.real("%s%d" % (k, i), pos=k[0] == "d" or i > 0) for i in range(n)])
    d.stype = h.choice("stype", ["X", "N"])
    for k in ("qmax", "qdamp", "qbroad", "dscale"):
        setattr(d, k, h.real(k, nonneg=k == "qmax", pos=k in ("qdamp", "qbroad")))
    d.rmin, d.rmax = d.robs[0], d.robs[-1]
    d.metadata = {k: h.real(k, pos=i > 0) for i, k in enumerate(meta)}
    return d


def trip(h):
    """Written and read back."""
    h.text()
    d = filled(h, h.p["n"], h.p["meta"])
    nod = h.choice("uncertainties", ["both", "none", "G"])
    if nod != "both":
        d.drobs = [0.0] * len(d.robs)
    if nod == "none":
        d.dGobs = [0.0] * len(d.robs)
    e = dataset(h, "e")
    if h.p["file"]:
        p = h.path("y.gr")
        d.write(p)
        e.read(p)
    else:
        e.readStr(d.writeStr())
    for k in ("robs", "Gobs", "drobs", "dGobs"):
        nearall(h, getattr(d, k), getattr(e, k), k)
    h.prove(e.stype == d.stype, "same scattering type")
    q = e.qmax - d.qmax
    h.prove(h.andb(q <= 0.00501, q >= -0.00501), "qmax to the printed precision")
    for k in ("qdamp", "qbroad", "dscale"):
        h.prove(near(h, getattr(d, k), getattr(e, k)), k + " to the printed precision")
    h.prove(set(e.metadata) == set(d.metadata), "same metadata")
    for k in d.metadata:
        h.prove(h.exact(e.metadata[k], d.metadata[k]), "value of metadata")
    h.prove(h.andb(h.exact(e.rmin, e.robs[0]), h.exact(e.rmax, e.robs[-1])), "rmin and rmax from the data")


ATTRS = ("robs", "Gobs", "drobs", "dGobs", "stype", "qmax", "qdamp", "qbroad", "spdiameter", "dscale", "rmin", "rmax", "filename", "metadata")


def copies(h):
    d = filled(h, 2, ("temperature", "doping"))
    d.spdiameter = h.real("spdiameter")
    d.filename = "/data/a.gr"
    how = h.choice("into", ["new", "empty", "used"])
    e = None
    if how != "new":
        e = dataset(h, "other")
        if how == "used":
            e.metadata["old"], e.robs, e.Gobs, e.qmax, e.filename = 1.0, [1.0], [2.0], 3.0, "z"
    old = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in ((k, getattr(d, k)) for k in ATTRS)}
    c = d.copy() if e is None else d.copy(e)
    h.prove(c is not d and (e is None or c is e), "the copy is another data set, the given one if any")
    h.prove(c.name == ("d" if e is None else "other"), "name of the copy")

    def same(s, want):
        ok = []
        for k in ATTRS:
            v, w = getattr(s, k), want[k]
            if isinstance(w, dict):
                ok.append(set(v) == set(w) and h.andb(*[h.exact(v[i], w[i]) for i in w]))
            elif isinstance(w, list):
                ok.append(h.exact(list(v), w))
            else:
                ok.append(v == w if isinstance(w, str) or w is None or v is None else h.exact(v, w))
        return h.andb(*ok)
    h.prove(same(c, old), "the copy has all values of the original")
    h.prove(same(d, old), "copying leaves the original alone")
    a, b = (d, c) if h.choice("change", ["original", "copy"]) == "original" else (c, d)
    a.metadata["temperature"] = h.real("t")
    a.metadata["new"] = 1.0
    a.qmax, a.stype = h.real("q"), "other"
    a.setvar("dscale", h.real("s"))
    h.prove(same(b, old), "later changes of one do not show in the other")
    a.clear()
    h.prove(same(b, old), "clearing one leaves the other")


def variables(h):
    h.text()
    d = filled(h, 1, ())
    before = {k: getattr(d, k) for k in ("qmax", "qdamp", "qbroad", "dscale", "rmin", "rmax", "stype")}
    v = h.real("v")
    name = h.choice("name", ["qdamp", " qbroad ", "dscale\n", "qmax", "rmin", "robs", "Qdamp", "", "spdiameter", "name", "metadata", "qdamp qbroad"])
    given = h.choice("given", [v, num(v)])
    PK = h.cls("srmiseerrors", "SrMisePDFKeyError")
    if name.strip() in ("qdamp", "qbroad", "dscale"):
        k = name.strip()
        h.prove(h.exact(d.getvar(name), before[k]), "value by name")
        d.setvar(name, given)
        h.prove(h.exact(d.getvar(name), v), "value set by name")
        h.prove(h.exact(getattr(d, k), v), "the variable of that name is set")
        before[k] = v
    else:
        h.prove(h.raises(lambda: d.setvar(name, given), PK) is not None, "setting anything else is refused")
        h.prove(h.raises(lambda: d.getvar(name), PK) is not None, "getting anything else is refused")
    for k, w in before.items():
        h.prove(getattr(d, k) == w if isinstance(w, str) else h.exact(getattr(d, k), w), "other variables are left alone")
    if name.strip() in ("qdamp", "qbroad", "dscale"):
        h.prove(h.raises(lambda: d.setvar(name, "abc"), ValueError) is not None, "only numbers are accepted")


def scenarios(tier):
    T = tier == "thorough"
    out = []
    start = "##### start data\n#L r(A) G(r) d_r d_Gr\n"
    cols = [2, 3, 4] + ([5] if T else [])
    N = ["number"]
    for n in (1, 2) + ((3,) if T else ()):
        out.append(("columns%d" % n, "columns", dict(n=n, cols=cols + ([5] if n == 1 else []), entries=N, sep=" ", header=start, tail="\n"), {}))
    out.append(("columns3", "columns", dict(n=3, cols=[2, 4], entries=N, sep=" ", header=start, tail="\n"), {}))
    if T:
        out.append(("columns4", "columns", dict(n=4, cols=[2, 4], entries=N, sep=" ", header=start, tail="\n"), {"weight": 3}))
    special = ["number", "nan", "inf", "-Inf", "NaN"]
    out.append(("special", "columns", dict(n=2, cols=[3, 4] if T else [4], entries=special if T else special[:3], sep="\t", header=start, tail=""), {"weight": 3}))
    out.append(("special1", "columns", dict(n=1, cols=[2, 3, 4], entries=special + ["+inf"], sep="  ", header=start, tail="\n\n"), {}))
    out.append(("nomarker", "columns", dict(n=2, cols=[2, 4], entries=N, sep=" ", header="", tail="\n"), {}))
    out.append(("nomarker-header", "columns", dict(n=2, cols=[2], entries=N, sep=" ", header="some title\nqmax: none, a 3\n# comment 5\n", tail="\n"), {}))
    out.append(("used", "columns", dict(n=2, cols=[2, 3], entries=N, sep=" ", header=start, tail="\n", used=1), {}))
    plain = dict(qmax="qmax=%s", qdamp="qdamp=%s", qbroad="qbroad=%s", dscale="dscale=%s", spdiameter="spdiameter=%s")
    H = [("plain", dict(names=plain, sep="\n", stype="X", pos=True)),
         ("old", dict(names=dict(qmax="Qmax = %s", qdamp="Qsig  =  %s", qbroad="QALP =%s"), sep=", ", stype="N", more="produced by PDFgetN\n", pos=True)),
         ("neutron", dict(names=dict(qmax="QMAX=%s"), sep="\n", stype="N", more="stype=N  neutron scattering\n", file=1)),
         ("xray", dict(names=dict(dscale="dscale=%s"), sep="\n", stype="X", more="stype=X  x-ray scattering\n", file=1)),
         ("pdfgetx", dict(names={}, sep="\n", stype="X", more="PDFgetX3\n")),
         ("both", dict(names={}, sep="\n", stype="X", more="Xray, not neutron\n")),
         ("signs", dict(names=dict(qmax="qmax= %s", qdamp="qdamp=%s"), sep=" \n", stype="X")),
         ("temp", dict(names=dict(temperature="temp=%s", doping="x = %s"), sep="\n")),
         ("temp2", dict(names=dict(temperature="temperature = %s", doping="doping=%s"), sep=" ")),
         ("temp3", dict(names=dict(temperature="T=%s"), sep="\n", marker="")),
         ("nomarker", dict(names=dict(plain), sep="\n", pos=True, marker="")),
         ("metadata", dict(names=dict(qmax="qmax=%s", alpha="# metadata\nalpha=%s", temperature="temperature=%s", beta_2="beta_2 = %s"), sep="\n", pos=True)),
         ("metadata-only", dict(names=dict(x1="## metadata\nx1=%s", y="y= %s"), sep="\n")),
         # what belongs to the metadata is not taken for the header
         ("metadata-names", dict(names=dict(zeta="# metadata\nzeta=%s"), sep="\n", more="qdamp=5\n", meta=dict(qdamp=5.0))),
         ]
    for n, p in H:
        out.append(("header-" + n, "header", p, {}))
    out.append(("refused", "refused", {}, {}))
    for n in (1, 2) + ((3,) if T else ()):
        out.append(("trip%d" % n, "trip", dict(n=n, meta=("temperature",) if n == 1 else ("doping", "pressure"), file=n == 2), {}))
    out.append(("trip-plain", "trip", dict(n=2, meta=(), file=False), {}))
    out.append(("copies", "copies", {}, {}))
    out.append(("variables", "variables", {}, {}))
    return out
