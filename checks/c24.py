import contextlib
import io
import logging
import os
import shutil
import sys
import numpy as np
from vlib import call
from diffpy.srmise import srmiselog
from diffpy.srmise.applications import extract
from diffpy.srmise.baselines.base import Baseline, BaselineFunction
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples

NONE, AUTO, ODD = 2000000000, 1999999999, 1999999998
SECOND = {}


def scaled(v, k):
    r = float(v) * k
    return int(round(r)) if abs(r - round(r)) < 1e-3 and abs(r) < 1.9e9 else ODD


def th(v):
    return NONE if v is None else scaled(v, 1000)


def fndesc(f):
    if isinstance(f, TerminationRipples):
        return "TerminationRipples(%s) %d %d %d" % (fndesc(f.base), th(f.qmax), th(f.extension), th(f.supersample))
    if isinstance(f, (Gaussian, GaussianOverR)):
        return "%s %d" % (type(f).__name__, th(f.maxwidth))
    if isinstance(f, Polynomial):
        return "Polynomial %d" % (f.npars - 1)
    if isinstance(f, FromSequence):
        return "FromSequence " + repr([(th(a), th(b)) for a, b in zip(f.metadict["x"][0], f.metadict["y"][0])])
    return type(f).__name__


def bldesc(b):
    if b is None:
        return {"t": "none", "p": [], "f": []}
    if isinstance(b, BaselineFunction):
        return {"t": "function " + fndesc(b), "p": [], "f": []}
    return {"t": fndesc(b.owner()), "p": [int(round(float(v) * 1e6)) for v in b.pars], "f": [bool(v) for v in b.free]}


def settings(p):
    flag = lambda v: "none" if v is None else "t" if v is True else "f" if v is False else "other"
    return {"rng": [] if p.rng is None else [th(v) for v in p.rng], "qmax": th2(p.qmax), "nyq": flag(p.nyquist), "scale": flag(p.scale), "cres": th2(p.cres), "super": th(p.supersample),
            "pf": "none" if p.pf is None else "; ".join(fndesc(f) for f in p.pf), "em": "none" if p.error_method is None else p.error_method.__name__,
            "bl": bldesc(p.baseline), "eff": [] if p.effective_dy is None else [scaled(v, 1e6) for v in np.atleast_1d(p.effective_dy)]}


def num(rng, v):
    """Text of v thousandths."""
    return rng.choice(["%.3f" % (v / 1000), repr(v / 1000), "%g" % (v / 1000), "%.6e" % (v / 1000), ("%d" if v % 1000 == 0 else "%.4f") % (v // 1000 if v % 1000 == 0 else v / 1000)])


def par(rng, lo=-5000, hi=5000):
    v, c = rng.randint(lo, hi), rng.random() < 0.4
    return {"v": v, "c": c}, num(rng, v) + ("c" if c else "")


def option(rng, d):
    """(record for the specification, words of the command line)"""
    k = rng.choice(["--range", "--qmax", "--qmax", "nyq", "scale", "--cres", "--supersample", "--pf", "me", "bl", "bl", "bl", "--dg", "--dg", "--dg-mode", "--dg-mode", "run", "verb"])
    rec = {"o": k, "n": 0, "t": "", "q": []}
    eq = lambda w: ["%s=%s" % (k, w)] if rng.random() < 0.3 else [k, w]
    if k == "--range":
        a, b = rng.randint(500, 3000), rng.randint(3500, 9000)
        rec["q"] = [{"v": a, "c": False}, {"v": b, "c": False}]
        return rec, [k, num(rng, a), num(rng, b)]
    if k == "--qmax":
        if rng.random() < 0.2 and d["fromd"] != NONE:
            rec["n"] = AUTO
            return rec, eq("automatic")
        rec["n"] = rng.choice([0, rng.randint(1, 40) * 1000, rng.randint(100, 40000)])
        return rec, eq(num(rng, rec["n"]))
    if k == "nyq":
        rec["o"] = rng.choice(["--nyquist", "--no-nyquist"])
        return rec, [rec["o"]]
    if k == "scale":
        rec["o"] = rng.choice(["--scale", "--no-scale"])
        return rec, [rec["o"]]
    if k == "--cres":
        rec["n"] = rng.choice([0, rng.randint(1, 2000)])
        return rec, eq(num(rng, rec["n"]))
    if k == "--supersample":
        rec["n"] = rng.choice([1000, rng.randint(1000, 9000), rng.randint(1000, 9000), rng.randint(0, 999)])
        return rec, eq(num(rng, rec["n"]))
    if k == "--pf":
        w = rng.randint(100, 2000)
        name = rng.choice(["Gaussian", "GaussianOverR"])
        text, tok = "%s(%s%s)" % (name, rng.choice(["", "maxwidth="]), num(rng, w)), "%s %d" % (name, w)
        if rng.random() < 0.3:
            q = rng.randint(10000, 30000)
            text, tok = "TerminationRipples(%s, %s)" % (text, num(rng, q)), "TerminationRipples(%s) %d 4000 5000" % (tok, q)
        rec["t"] = tok
        return rec, eq(text)
    if k == "me":
        rec["o"] = k = rng.choice(["--me", "-m"])
        rec["t"] = rng.choice(["AIC", "AICc"])
        return rec, [k, rec["t"]] if k == "-m" else eq(rec["t"])
    if k == "--dg":
        rec["n"] = rng.choice([0, rng.randint(1, 90), rng.randint(1, 90), rng.randint(1, 3000)])
        return rec, eq(num(rng, rec["n"]))
    if k == "--dg-mode":
        rec["t"] = rng.choice(["absolute", "max-fraction", "ptp-fraction", "dG-fraction"])
        return rec, eq(rec["t"])
    if k == "run":
        rec["o"] = rng.choice(["--extract", "--no-extract"])
        return rec, [rec["o"]]
    if k == "verb":
        rec["o"] = rng.choice(["-i", "-q", "-s", "-v", "--informative", "--quiet", "--silent", "--verbose"])
        return rec, [rec["o"]]
    k = rec["o"] = rng.choice(["--baseline", "--baseline", "--bcrystal", "--bsrmise", "--bpoly0", "--bpoly1", "--bpoly2", "--bseq", "--bspherical"])
    if k == "--baseline":
        if rng.random() < 0.7:
            n = rng.randint(-1, 3)
            rec["t"] = "function Polynomial %d" % n
            return rec, eq(rng.choice(["Polynomial(%d)", "Polynomial(degree=%d)"]) % n)
        rec["t"] = "function NanoSpherical"
        return rec, eq("NanoSpherical()")
    if k == "--bcrystal":
        q, w = par(rng, 0, 150)
        rec["q"] = [q]
        return rec, eq(w)
    if k == "--bsrmise":
        rec["q"] = SECOND["q"]
        return rec, eq(SECOND["file"])
    if k == "--bseq":
        rec["t"] = SECOND["seq"]
        return rec, eq(SECOND["seqfile"])
    pos = (1, 5000) if k == "--bspherical" else (-5000, 5000)
    ps = [par(rng, *pos) for _ in range({"--bpoly0": 1, "--bpoly1": 2, "--bpoly2": 3, "--bspherical": 2}[k])]
    rec["q"] = [p for p, _ in ps]
    return rec, eq(ps[0][1]) if len(ps) == 1 else [k] + [w for _, w in ps]


def datafile(rng, ck, i):
    """A data file and what is known of it."""
    n = rng.choice([20, 25, 40])
    x = [1000 + 200 * j for j in range(n)]
    y = [rng.randint(-900, 900) for _ in range(n)]
    y[rng.randint(0, n - 1)] = rng.choice([1000, 1700])
    kind = rng.choice(["none", "zero", "some", "all", "all"])
    dy = {"none": [0] * n, "zero": [0] * n, "some": [rng.randint(0, 1) * 10 for _ in range(n)], "all": [rng.randint(1, 60) for _ in range(n)]}[kind]
    if kind == "some":
        dy[0], dy[1] = 0, 10
    path = os.path.join(ck.tmp, "d%d.gr" % i)
    qmax = rng.choice([None, 12.5, 20])
    with open(path, "w") as f:
        f.write("[DEFAULT]\n%s#### start data\n" % ("qmax=%s\n" % qmax if qmax else ""))
        for a, b, c in zip(x, y, dy):
            f.write("%.3f %.3f%s\n" % (a / 1000, b / 1000, "" if kind == "none" else " 0.000 %.3f" % (c / 1000)))
    p = PDFPeakExtraction()
    p.loadpdf(path)
    if rng.random() < 0.4:
        # a saved extraction of that data, with settings of its own
        p.setvars(**{k: v for k, v in (("qmax", 11.0), ("nyquist", False), ("cres", 0.25), ("supersample", 3.0), ("pf", [Gaussian(1.5), GaussianOverR(0.5)]), ("rng", [1.5, 4.0]),
                                       ("baseline", Polynomial(1).actualize([0.5, 1.0], "internal", free=[True, False])), ("error_method", AICc), ("effective_dy", 0.125 * np.ones(n)), ("scale", True)) if rng.random() < 0.5})
        path = os.path.join(ck.tmp, "d%d.srmise" % i)
        p.write(path)
        p = PDFPeakExtraction()
        p.read(path)
    kept = p.dy is not None
    return {"path": path, "y": y, "dy": [scaled(v, 1000) for v in p.dy] if kept else [], "fromd": th2(p.qmax_fromdata), "before": settings(p), "x": p.x.copy(), "ys": p.y.copy(), "n": n}


def th2(v):
    return NONE if v is None else int(round(float(v) * 1000))


class Stand:
    """Counts extractions; the real one is used when asked."""

    def __init__(self, real=False):
        self.real, self.count, self.after, self.obj, self.made, self.cls = real, 0, None, None, [], PDFPeakExtraction

    def __enter__(self):
        self.extract, self.init = PDFPeakExtraction.extract, PDFPeakExtraction.__init__
        me = self

        def init(s, *a, **k):
            me.made.append(s)
            return me.init(s, *a, **k)

        def ext(s, *a, **k):
            me.count += 1
            me.obj, me.after = s, settings(s)
            if me.real:
                return me.extract(s, *a, **k)
            s.extracted = ModelCluster(None, None, s.x, s.y, np.ones(len(s.x)), None, AIC, [Gaussian(1.0)])
            s.extraction_type = "extract"
            return None

        PDFPeakExtraction.extract, PDFPeakExtraction.__init__ = ext, init
        return self

    def __exit__(self, *a):
        PDFPeakExtraction.extract, PDFPeakExtraction.__init__ = self.extract, self.init
        return False


def main(words, stand, timeout=20):
    old = sys.argv
    sys.argv = ["srmise"] + words
    stream = srmiselog.ch.setStream(io.StringIO())

    def go():
        try:
            extract.main()
            return 0
        except SystemExit as e:
            return 0 if e.code in (0, None) else 2

    try:
        with stand, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            k, v = call(go, timeout=timeout)
        level = srmiselog.ch.level
    finally:
        sys.argv = old
        srmiselog.ch.setStream(stream)
        srmiselog.setlevel("critical")
        logging.getLogger("diffpy.srmise").setLevel(logging.INFO)
    return ("ok" if k == "ok" and v == 0 else "refused" if k == "ok" or v[0] != "TIMEOUT" else "timeout"), level, v


def reference(d, opts):
    """The extraction as it is when the values of the options are set without the tool (defaults come from it)."""
    last = {}
    for o in opts:
        last[o["o"]] = o
    kw = {}
    for o in opts:
        k = o["o"]
        if k == "--range":
            kw["rng"] = [v["v"] / 1000 for v in o["q"]]
        elif k == "--qmax":
            kw["qmax"] = "automatic" if o["n"] == AUTO else o["n"] / 1000
        elif k in ("--nyquist", "--no-nyquist"):
            kw["nyquist"] = k == "--nyquist"
        elif k in ("--scale", "--no-scale"):
            kw["scale"] = k == "--scale"
        elif k == "--baseline":
            kw["baseline"] = NanoSpherical() if "Nano" in o["t"] else Polynomial(int(o["t"].split()[-1]))
    p = PDFPeakExtraction()
    (p.read if d["path"].endswith("srmise") else p.loadpdf)(d["path"])
    k, v = call(p.setvars, **kw)
    return settings(p) if k == "ok" else d["before"]


def run1(rng, ck, d):
    opts, words = [], []
    for _ in range(rng.randint(0, 6)):
        o, w = option(rng, d)
        # different kinds of baseline at once have no meaning that is told
        if o["o"].startswith("--b") and any(q["o"].startswith("--b") and q["o"] != o["o"] for q in opts):
            continue
        opts.append(o)
        words.append(w)
    save = os.path.join(ck.tmp, "out.srmise")
    if os.path.exists(save):
        os.remove(save)
    if rng.random() < 0.4:
        opts.append({"o": "--save", "n": 0, "t": "", "q": []})
        words.append(["--save", save])
    words.insert(rng.randint(0, len(words)), [d["path"]])
    words = [w for ws in words for w in ws]
    st = Stand()
    r, level, v = main(words, st)
    saved = os.path.exists(save)
    e = {"op": "run", "opts": opts, "d": {"y": d["y"], "dy": d["dy"], "fromd": d["fromd"]}, "ref": reference(d, opts), "r": r, "extracted": st.count, "saved": saved, "level": level,
         "after": None, "file": None, "data": False, "hasresult": False, "_note": {"words": words, "result": v}}
    if r == "ok":
        obj = st.obj
        if obj is None:
            c = [p for p in st.made if p.x is not None and len(p.x) == d["n"] and np.all(p.y == d["ys"])]
            obj = c[-1] if c else None
        if obj is not None:
            e["after"] = st.after or settings(obj)
            e["data"] = bool(len(obj.x) == d["n"] and np.all(obj.x == d["x"]) and np.all(obj.y == d["ys"]))
        if saved:
            p = PDFPeakExtraction()
            k, v = call(p.read, save)
            e["file"] = settings(p) if k == "ok" else None
            e["hasresult"] = k == "ok" and p.extracted is not None
    e["after"] = e["after"] or dict(e["ref"], pf="nothing")
    e["file"] = e["file"] or dict(e["ref"], pf="nothing")
    if os.path.exists(save):
        os.remove(save)
    return e


def wrong(rng, ck, d):
    f = d["path"]
    save = os.path.join(ck.tmp, "out.srmise")
    none = os.path.join(ck.tmp, "nothing.gr")
    text = os.path.join(ck.tmp, "words.gr")
    with open(text, "w") as g:
        g.write("no data\nin here\n")
    pre = os.path.join(ck.tmp, "pwned")
    cases = [("an unknown option", ["--unknown", f]), ("no file", []), ("two files", [f, f]), ("a file which is not there", [none]), ("a file without data", [text]),
             ("an unknown mode of uncertainty", ["--dg-mode", "relative", f]), ("a resolution which is no number", ["--cres", "x", f]), ("an uncertainty which is no number", ["--dg", "1c", f]),
             ("a supersampling which is no number", ["--supersample", "four", f]), ("a qmax which is no number", ["--qmax", "auto", f]), ("half a range", [f, "--range", "1"]),
             ("a range which is no number", ["--range", "1", "b", f]), ("a peak function which is not known", ["--pf", "Lorentz(1)", f]), ("a peak function without its width", ["--pf", "Gaussian()", f]),
             ("a peak function of impossible width", ["--pf", "Gaussian(-1)", f]), ("a peak function which is no expression", ["--pf", "Gaussian(1", f]),
             ("code for a peak function", ["--pf", "__import__('os').mkdir(%r)" % pre, f]), ("a model evaluator which is not known", ["-m", "BIC", f]),
             ("a baseline which is not known", ["--baseline", "Cubic()", f]), ("a baseline of impossible degree", ["--baseline", "Polynomial('a')", f]), ("code for a baseline", ["--baseline", "open(%r, 'w')" % pre, f]),
             ("a parameter which is no number", ["--bpoly1", "1", "b", f]), ("a parameter which is only fixed", ["--bpoly0", "c", f]), ("a parameter fixed by another letter", ["--bpoly0", "1f", f]),
             ("a density which is no number", ["--bcrystal", "rho", f]), ("a sphere which is no number", ["--bspherical", "1", "r", f]), ("a sequence which is not there", ["--bseq", none, f]),
             ("a baseline file which is not there", ["--bsrmise", none, f]), ("a baseline file which is none", ["--bsrmise", text, f])]
    what, words = rng.choice(cases)
    st = Stand()
    words = ["--save", save] + words
    if rng.random() < 0.3:
        words = ["--no-extract"] + words
    main(words, st)
    e = {"op": "wrong", "what": what, "r": "refused" if st.count == 0 else "ok", "extracted": st.count, "saved": os.path.exists(save) or os.path.exists(pre), "_note": words}
    for p in (save,):
        if os.path.exists(p):
            os.remove(p)
    if os.path.isdir(pre):
        os.rmdir(pre)
    elif os.path.exists(pre):
        os.remove(pre)
    return e


def second(rng, ck):
    """Files named by options: a saved extraction with a baseline, a sequence."""
    p = PDFPeakExtraction()
    x = np.arange(1, 4, 0.25)
    p.setdata(x, 0.5 * x, None, None)
    SECOND["q"] = [{"v": 250, "c": True}, {"v": -125, "c": False}]
    b = Polynomial(1).actualize([0.25, -0.125], "internal", free=[False, True])
    p.extracted = ModelCluster(Peaks([]), b, x, 0.5 * x, np.ones(len(x)), None, AIC, [Gaussian(1.0)])
    p.extraction_type = "extract"
    SECOND["file"] = os.path.join(ck.tmp, "second.srmise")
    p.write(SECOND["file"])
    px, py = [0, 1000, 2500, 4000, 9000], [100, -200, 300, 0, -125]
    SECOND["seqfile"] = os.path.join(ck.tmp, "seq.dat")
    with open(SECOND["seqfile"], "w") as f:
        f.writelines("%r %r\n" % (a / 1000, b / 1000) for a, b in zip(px, py))
    SECOND["seq"] = "FromSequence " + repr(list(zip(px, py)))


def run(ck):
    ck.model_check("CommandLine", "CONSTANTS MaxLen = %d\nSPECIFICATION Spec\nINVARIANT LastWins Kept Uncertain\nPROPERTY Own\nCHECK_DEADLOCK FALSE\n" % ck.budget(2, 3), "every short list of options over data with and without uncertainties")
    rng = ck.rng
    second(rng, ck)
    files = [datafile(rng, ck, i) for i in range(ck.budget(40, 120))]
    tr = []
    for _ in range(ck.budget(2500, 9000)):
        d = rng.choice(files)
        tr.append([run1(rng, ck, d) if rng.random() < 0.85 else wrong(rng, ck, d)])
    ck.validate("CommandLineTrace", tr, what="recorded runs of the command-line tool")
