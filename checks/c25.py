import contextlib, io, os, re
import numpy as np
from vlib import call, fx, Intern
from c13 import snap, basefunc, baseline, data, number, val, META
from c15 import make
from diffpy.srmise.basefunction import BaseFunction
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators import AIC, AICc
from diffpy.srmise.multimodelselection import MultimodelSelection
from diffpy.srmise.pdfdataset import PDFDataSet
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peakstability import PeakStability
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR


# ------------------------------------------------------------------ projection
def plain(s):
    """A written value without the type numpy may put around it."""
    return re.sub(r"np\.\w+\(([^()]*)\)", r"\1", s.strip())


def value(s):
    s = plain(s)
    try:
        return repr(float(s))
    except ValueError:
        m = re.match(r"[\[(](.*),(.*)[\])]$", s)
        return repr([value(m.group(1)), value(m.group(2))]) if m else s


def told(v):
    if v is None or isinstance(v, (bool, np.bool_, str)):
        return value(str(v))
    if isinstance(v, (list, tuple, np.ndarray)):
        return repr([told(t) for t in v])
    return repr(float(v))


def project(o, tok, given):
    e = o.extracted
    if e is None:
        return []
    objs = []

    def fid(f):
        for i, g in enumerate(objs):
            if g is f:
                return i + 1
        objs.append(f)
        return len(objs)

    uses = [fid(f) for f in (o.pf or [])] + [fid(p.owner()) for p in (o.initial_peaks or [])]
    uses += [fid(f) for f in e.peak_funcs] + [fid(p.owner()) for p in e.model]
    blu = []
    if o.baseline is not None:
        blu.append(fid(o.baseline if isinstance(o.baseline, BaseFunction) else o.baseline.owner()))
    bl = {"on": False, "v": [], "fn": 0, "names": []}
    if e.baseline is not None:
        f = e.baseline.owner()
        blu.append(fid(f))
        bl = {"on": True, "v": [fx(v) for v in e.baseline.pars], "fn": fid(f),
              "names": sorted(f.parameterdict, key=f.parameterdict.get)}
    peaks = []
    for p in e.model:
        f = p.owner()
        key = (id(f), tuple(p.pars))
        pwa = given[key] if key in given else f.transform_parameters(p.pars, "internal", "pwa")
        peaks.append({"v": [fx(t) for t in pwa], "fn": fid(f)})
    base, i = [], 0
    while i < len(objs):
        b = objs[i].base
        base.append(0 if b is None else fid(b))
        i += 1
    f = {k: tok(told(getattr(o, k))) for k in META}
    f["Range"] = tok(told(o.rng))
    f["cres"] = tok(told(float("%g" % o.cres)))
    f["ModelEvaluator"] = tok("None" if o.error_method is None else o.error_method.__name__)
    return [{"f": f, "stat": fx(e.quality().stat, 1000), "kpeaks": sum(sum(map(bool, p.free)) for p in e.model),
             "kbl": 0 if e.baseline is None else sum(map(bool, e.baseline.free)), "n": len(e.r_cluster),
             "mean": fx(sum(o.effective_dy) / len(o.effective_dy)), "what": [tok(g.getmodule()) for g in objs], "base": base,
             "uses": uses, "bluses": blu, "peaks": peaks, "bl": bl}]


def section(t, name):
    m = re.search(r"(?m)^#+ %s[ \t]*$\n" % re.escape(name), t)
    if not m:
        raise ValueError("summary without section " + name)
    rest = t[m.end():]
    n = re.search(r"(?m)^##+ ", rest)
    return rest[: n.start()] if n else rest


def funcs(t, tok):
    out = []
    for l in t.splitlines():
        if l.strip() and not l.startswith("#"):
            m = re.match(r"(\d+) (\S+)\s*(?:\(base=(\d+)\))?\s*$", l)
            if int(m.group(1)) != len(out):
                raise ValueError("functions are not numbered in order")
            out.append({"what": tok(m.group(2)), "base": int(m.group(3)) if m.group(3) else -1})
    return out


def parse(t, tok):
    meta = dict(l.split("=", 1) for l in (section(t, "PDF metadata") + section(t, "Peak extraction metadata") + section(t, "Model Quality")).splitlines() if "=" in l)
    q = dict(l[1:].rsplit(":", 1) for l in section(t, "Model Quality").splitlines() if l.startswith("#"))
    q = {k.strip(): float(plain(v)) for k, v in q.items()}
    f = {k: tok(value(meta[k])) for k in META + ["Range", "cres"]}
    f["ModelEvaluator"] = tok(meta["ModelEvaluator"].strip())
    bt = [l for l in section(t, "Baseline").splitlines() if l.strip()]
    names = [l[1:].split() for l in bt[2:-1]]
    bl = {"on": False, "v": [], "fn": 0, "names": []}
    if bt[-1].strip() != "None":
        a, b = bt[-1].split("#")
        none = a.strip() == "(no parameters)"
        bl = {"on": True, "v": [] if none else [fx(plain(s)) for s in a.split()], "fn": int(b), "names": names[0] if names else []}
    peaks = []
    for l in section(t, "Extracted Peaks").splitlines():
        if l.strip() and not l.startswith("#"):
            a, b = l.split("#")
            peaks.append({"v": [fx(plain(s)) for s in a.split()], "fn": int(b)})
    c = re.search(r"(?m)^##### User comments\n((?:# .*\n|#\n)*)", t).group(1)
    return {"f": f, "comments": tok(repr([l[2:] for l in c.splitlines()])), "stat": fx(q["Quality reported by ModelEvaluator"], 1000),
            "kpeaks": int(q["Free parameters in extracted peaks"]), "kbl": int(q["Free parameters in baseline"]),
            "n": int(q["Length of data in final fit"]), "mean": fx(plain(meta["effective_dy"].replace("(mean)", ""))),
            "bfs": funcs(section(t, "Baseline Functions"), tok), "pfs": funcs(section(t, "Peak Functions"), tok), "peaks": peaks, "bl": bl}


# ------------------------------------------------------------------ histories
def functions(rng):
    fs = [make(rng, rng.choice(["Gaussian", "GaussianOverR"]), None) for _ in range(rng.randint(1, 2))]
    for b in list(fs):
        if rng.random() < 0.5:
            fs.append(make(rng, "TerminationRipples", b))
    return fs


def width(f):
    while f.base is not None:
        f = f.base
    return float(f.maxwidth)


def peak(rng, f, given):
    v = [rng.uniform(1, 8), width(f) * rng.uniform(0.1, 0.9), rng.uniform(0.1, 50)]
    p = f.actualize(v, "pwa", free=[rng.random() < 0.6 for _ in v], removable=rng.random() < 0.6)
    given[(id(f), tuple(p.pars))] = v
    return p


def result(rng, o, fs, given):
    bl = rng.choice([o.baseline, o.baseline, None, "new"])
    if isinstance(bl, BaseFunction) or isinstance(bl, str):
        bl = baseline(rng, basefunc(rng))
    elif bl is not None:
        bl = bl.copy()
        for i in range(len(bl.pars)):
            if rng.random() < 0.3:
                bl.free[i] = not bl.free[i]
    n = rng.randint(4, len(o.x))
    m = Peaks([peak(rng, rng.choice(fs), given) for _ in range(rng.randint(0, 4))])
    m.sort(key="position")
    o.extracted = ModelCluster(m, bl, np.array(o.x[:n]), np.array(o.y[:n]), np.ones(n) * rng.choice([1.0, 0.3]), None, rng.choice([AIC, AICc]), rng.sample(fs, rng.randint(1, len(fs))))
    o.extraction_type = "extract"


def setup(rng):
    o = PDFPeakExtraction()
    x, y = data(rng)
    y = np.clip(y, -40, 40)
    if rng.random() < 0.4:
        d = PDFDataSet("d")
        d.robs, d.Gobs, d.drobs, d.dGobs, d.qmax = list(x), list(y), list(np.zeros(len(x))), list(np.ones(len(x))), rng.choice([0.0, 20.5])
        o.loadpdf(d)
    else:
        o.setdata(x, y)
    fs = functions(rng)
    given = {}
    kw = {"pf": rng.sample(fs, rng.randint(1, len(fs))), "error_method": rng.choice([AIC, AICc]), "effective_dy": rng.choice([0.5, np.array([0.2 + i % 5 for i in range(len(x))])])}
    if rng.random() < 0.5:
        kw["initial_peaks"] = Peaks([peak(rng, rng.choice(fs), given) for _ in range(rng.randint(0, 2))])
    b = basefunc(rng)
    kw["baseline"] = baseline(rng, b) if rng.random() < 0.8 else None
    if rng.random() < 0.6:
        kw["rng"] = rng.choice([[x[0], x[-1]], (x[1], None), [None, 2], [np.float64(x[1]), 3]])
    for k, v in (("cres", [0.123456789, 1, np.float64(0.25)]), ("qmax", [0.0, 0, 20, 17.3, np.float64(9.1)]), ("nyquist", [True, False]), ("scale", [True, False]), ("supersample", [4, 1.5, 7.0])):
        if rng.random() < 0.5:
            kw[k] = rng.choice(v)
    o.setvars(**{k: v for k, v in kw.items() if v is not None})
    if rng.random() < 0.15:
        o.baseline = b  # a function to be estimated when extracting
    o.defaultvars(*[k for k in ("cres", "qmax", "nyquist", "scale", "supersample", "rng") if k not in kw])
    o.filename = rng.choice(["/a b/c.gr", "it's \"q\".gr", None, "x#z.gr"])
    return o, fs, given


def summary(rng, ck, o, tok):
    before = snap(o, tok)
    c = rng.choice(["", "one line", "two\nlines", "# hash\n\n ## Extracted Peaks", "pwa=1"])
    if rng.random() < 0.5:
        path = os.path.join(ck.tmp, "s.pwa")
        if os.path.exists(path):
            os.remove(path)
        if rng.random() < 0.3:
            c = "n/a"
            k, v = call(o.writepwa, path)
        else:
            k, v = call(o.writepwa, path, c)
        t = open(path).read() if k == "ok" else ""
    else:
        k, v = call(o.writepwastr, c)
        t = v
    e = {"op": "summary", "r": k if k == "ok" else "refused" if "SrMiseError" in v else "error " + v[0], "kept": before == snap(o, tok)}
    if k == "ok":
        try:
            e.update(t=parse(t, tok), comments=tok(repr(c.splitlines())))
        except (KeyError, ValueError, AttributeError, IndexError, TypeError) as err:  # not the documented layout
            e["r"] = "unreadable: %s" % err
    return e


def one(rng, ck, tok):
    o, fs, given = setup(rng)
    ev = [{"op": "now", "p": project(o, tok, given)}]
    for _ in range(rng.randint(2, 6)):
        a = rng.random()
        if a < 0.5 or ev[-1]["op"] == "now" and a < 0.9:
            ev.append(summary(rng, ck, o, tok))
            continue
        if a < 0.85:
            result(rng, o, fs, given)
        elif a < 0.92:
            o.clearcalc()
        elif o.extracted is not None and len(o.extracted.model):
            call(o.extracted.deletepeak, rng.randrange(len(o.extracted.model)))  # may be refused
        ev.append({"op": "now", "p": project(o, tok, given)})
    ev.append(summary(rng, ck, o, tok))
    return ev


def real(rng, ck, tok):
    x = np.arange(1.0, 6.0, 0.1)
    g, h = GaussianOverR(1.2), Gaussian(1.4)
    pks = Peaks([q.actualize([2.1 + 1.7 * i + rng.uniform(-0.2, 0.2), 0.5, rng.uniform(3, 9)], "pwa") for i, q in enumerate([g, h])])
    o = PDFPeakExtraction()
    o.setdata(x, pks.value(x) - 0.2 * x + 0.01 * np.array([rng.gauss(0, 1) for _ in x]))
    kw = {"pf": rng.choice([[g], [g, h]]), "effective_dy": 0.05, "qmax": rng.choice([0.0, 15.0]), "nyquist": rng.random() < 0.7, "rng": [1.25, 5.5]}
    kw["baseline"] = rng.choice([Polynomial(0), Polynomial(1), Polynomial(1).actualize([-0.2, 0], free=[True, False])])
    o.setvars(**kw)
    ev = []
    if rng.random() < 0.5:
        o.setvars(initial_peaks=Peaks([p.copy() for p in pks]))
        o.fit()
    else:
        o.extract()
    for _ in range(2):
        ev += [{"op": "now", "p": project(o, tok, {})}, summary(rng, ck, o, tok)]
        if rng.random() < 0.5:  # the same through a file
            q = PDFPeakExtraction()
            q.readstr(o.writestr())
            ev += [{"op": "now", "p": project(q, tok, {})}, summary(rng, ck, q, tok)]
    return ev


def series(rng, ck, tok):
    """Selected results of a series, as in a multimodel analysis."""
    x = np.arange(1.0, 6.0, 0.1)
    g = GaussianOverR(1.2)
    pks = Peaks([g.actualize([2.1 + 1.7 * i, 0.5, rng.uniform(3, 9)], "pwa") for i in range(2)])
    o = PDFPeakExtraction()
    o.setdata(x, pks.value(x))
    o.setvars(pf=[g], effective_dy=0.1, qmax=0.0, baseline=Polynomial(0).actualize([0.5]), rng=[1.25, 5.5])
    s = PeakStability() if rng.random() < 0.5 else MultimodelSelection()
    s.setppe(o)
    s.run([0.1, 0.5, 2.0])
    ev = []
    for i in (1, 0, 2):
        s.setcurrent(i)
        ev += [{"op": "now", "p": project(s.ppe, tok, {})}, summary(rng, ck, s.ppe, tok)]
    return ev


def run(ck):
    ck.model_check("Summary", "CONSTANTS MaxF = 3 MaxList = %d MaxText = 2\nSPECIFICATION SpecS\nINVARIANT Faithful Exact\nCHECK_DEADLOCK FALSE\n" % ck.budget(2, 3),
                   "results extracted, cleared and summarised over every graph of three functions")
    tok = Intern()
    tr = [{"ev": one(ck.rng, ck, tok)} for _ in range(ck.budget(1200, 5000))]
    with contextlib.redirect_stdout(io.StringIO()):
        tr += [{"ev": real(ck.rng, ck, tok), "note": "real"} for _ in range(ck.budget(12, 50))]
        tr += [{"ev": series(ck.rng, ck, tok), "note": "series"} for _ in range(ck.budget(5, 20))]
    ck.validate("SummaryTrace", tr, what="recorded histories of results and their summaries")
