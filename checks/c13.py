import os, re
import numpy as np
from vlib import call, Intern
from fakes import IPeak, IBase
from c15 import make, number, peaky, what
from diffpy.srmise.basefunction import BaseFunction
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators import AIC, AICc
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.pdfdataset import PDFDataSet
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples

META = ["filename", "nyquist", "qmax", "qmax_reportedbypdf", "qmax_fromdata", "scale", "supersample"]


# ------------------------------------------------------------------ projection
def nums(v):
    return None if v is None else [float("%g" % t) for t in v]


def val(v):
    if v is None or isinstance(v, (bool, np.bool_, str)):
        return repr(v) if not isinstance(v, np.bool_) else repr(bool(v))
    return float(v).hex()


def desc(p):
    return ([float(v).hex() for v in p.pars], [bool(v) for v in p.free], bool(p.removable), bool(p.static_owner))


class Snap:
    """Field tokens plus the functions referred to, in a fixed order."""

    def __init__(self, tok):
        self.tok, self.f, self.objs, self.refs = tok, {}, [], []

    def put(self, k, v):
        self.f[k] = self.tok(repr(v))

    def ref(self, fn):
        self.refs.append(self._id(fn))

    def _id(self, fn):
        for i, g in enumerate(self.objs):
            if g is fn:
                return i + 1
        self.objs.append(fn)
        return len(self.objs)

    def parts(self, k, ps):
        self.put(k, None if ps is None else [desc(p) for p in ps])
        for p in ps or []:
            self.ref(p.owner())

    def funcs(self, k, fs):
        self.put(k, None if fs is None else len(fs))
        for g in fs or []:
            self.ref(g)

    def baseline(self, k, b):
        if b is None:
            self.put(k, None)
        elif isinstance(b, BaseFunction):
            self.put(k, "function")
            self.ref(b)
        else:
            self.put(k, desc(b))
            self.ref(b.owner())

    def cluster(self, c):
        self.put("extracted", c is not None)
        if c is None:
            return
        self.put("extracted region", (c.slice.indices(len(c.r_data)), len(c.r_cluster)))
        self.put("extracted data", [nums(c.r_data), nums(c.y_data), nums(c.y_error)])
        self.put("extracted evaluator", None if c.error_method is None else c.error_method.__name__)
        self.funcs("extracted peak functions", c.peak_funcs)
        self.parts("extracted model", c.model)
        self.baseline("extracted baseline", c.baseline)

    def done(self):
        base, i = [], 0
        while i < len(self.objs):
            b = self.objs[i].base
            base.append(0 if b is None else self._id(b))
            i += 1
        return {"f": self.f, "refs": self.refs, "what": [self.tok(what(g)) for g in self.objs], "base": base}


def snap(o, tok):
    s = Snap(tok)
    if isinstance(o, ModelCluster):
        s.cluster(o)
        return s.done()
    for k in ("x", "y", "dx", "dy", "effective_dy"):
        s.put(k, nums(getattr(o, k)))
    s.put("range", None if o.rng is None else [val(v) for v in o.rng])
    s.put("cres", None if o.cres is None else float("%g" % o.cres))
    s.put("evaluator", None if o.error_method is None else o.error_method.__name__)
    s.put("extraction type", o.extraction_type)
    s.funcs("peak functions", o.pf)
    s.parts("initial peaks", o.initial_peaks)
    s.baseline("baseline", o.baseline)
    if isinstance(o, PDFPeakExtraction):
        for k in META:
            s.put(k, val(getattr(o, k)))
    s.cluster(o.extracted)
    return s.done()


# ------------------------------------------------------------------ fabrication
def peak(rng, f):
    if isinstance(f, (Gaussian, GaussianOverR, TerminationRipples)):
        pars = [rng.uniform(0.5, 8), rng.uniform(0.1, 0.6), number(rng)]
        fmt = "internal"
    else:
        pars, fmt = [number(rng) for _ in range(f.npars)], "internal"
    return f.actualize(pars, fmt, free=[rng.random() < 0.6 for _ in pars], removable=rng.random() < 0.6, static_owner=rng.random() < 0.4)


def peakfuncs(rng):
    fs = [make(rng, rng.choice(["Gaussian", "GaussianOverR", "IPeak", "Hat"]), None) for _ in range(rng.randint(1, 3))]
    for b in list(fs):
        if rng.random() < 0.5:
            fs.append(make(rng, rng.choice(["TerminationRipples", "IPeak"]) if peaky(b) else "IPeak", b))
    if rng.random() < 0.3:
        fs.append(make(rng, "Gaussian", None))
    return fs


def basefunc(rng):
    k = rng.choice(["Polynomial", "Polynomial", "NanoSpherical", "FromSequence", "IBase", "nested"])
    if k == "nested":
        return make(rng, "IBase", make(rng, rng.choice(["Polynomial", "IBase"]), None))
    return make(rng, k, None)


def baseline(rng, f):
    if isinstance(f, FromSequence):
        pars = []
    else:
        pars = [number(rng) for _ in range(f.npars)]
    return f.actualize(pars, "internal", free=[rng.random() < 0.6 for _ in pars])


def data(rng):
    n = rng.choice([4, 7, 12, 40])
    x = np.array([0.3 + rng.choice([0.25, 0.1]) * i + rng.uniform(0, 0.05) for i in range(n)])
    if rng.random() < 0.3:
        x = np.array([1 / 3 + 0.1 * i for i in range(n)])
    y = np.array([number(rng) * rng.choice([-1, 1, 1e-8, 1e7]) for _ in range(n)])
    return x, y


def cluster(rng, x, y, pfs, bl, ip):
    pk = rng.sample(ip, rng.randint(0, len(ip))) if ip and rng.random() < 0.5 else []
    pk = Peaks([p.copy() for p in pk] + [peak(rng, rng.choice(pfs)) for _ in range(rng.randint(0, 3))])
    a = rng.randint(0, len(x) - 2)
    s = rng.choice([None, slice(len(x)), slice(a, rng.randint(a + 1, len(x)))])
    b = None if rng.random() < 0.2 else (baseline(rng, basefunc(rng)) if bl is None or isinstance(bl, BaseFunction) or rng.random() < 0.3 else rng.choice([bl, bl.copy()]))
    dy = np.array([abs(number(rng)) for _ in x])
    return ModelCluster(pk, b, np.array(x), np.array(y), dy, s, rng.choice([AIC, AICc]), rng.sample(pfs, rng.randint(1, len(pfs))))


def fabricate(rng, kind):
    pfs = peakfuncs(rng)
    x, y = data(rng)
    if kind == "cluster":
        return cluster(rng, x, y, pfs, None, [peak(rng, rng.choice(pfs)) for _ in range(2)])
    o = (PDFPeakExtraction if kind == "pdf" else PeakExtraction)()
    stage = rng.choice(["empty", "data", "data", "settings", "settings", "result", "result", "result", "fabricated"])
    if stage == "empty":
        return o
    dx, dy = [rng.choice([None, np.array([abs(number(rng)) for _ in x]), np.zeros(len(x))]) for _ in range(2)]
    if kind == "pdf" and rng.random() < 0.4:
        d = PDFDataSet("d")
        d.robs, d.Gobs, d.drobs, d.dGobs, d.qmax = list(x), list(y), list(np.zeros(len(x))), list(np.ones(len(x))), rng.choice([0.0, 20.5])
        o.loadpdf(d)
    else:
        o.setdata(x, y, dx, dy)
    if stage == "data":
        return o
    kw = {}
    if rng.random() < 0.6:
        kw["pf"] = rng.sample(pfs, rng.randint(1, len(pfs)))
    ip = [peak(rng, rng.choice(pfs)) for _ in range(rng.randint(0, 3))]
    if rng.random() < 0.6:
        kw["initial_peaks"] = Peaks(ip)
    bf = basefunc(rng)
    if rng.random() < 0.7:
        kw["baseline"] = baseline(rng, bf)
    if rng.random() < 0.5:
        kw["cres"] = abs(number(rng))
    if rng.random() < 0.5:
        kw["error_method"] = rng.choice([AIC, AICc])
    if rng.random() < 0.6:
        kw["rng"] = rng.choice([[x[0], x[-1]], (x[1], None), [None, 2], [0.5, 1.25], [np.float64(0.7), 3]])
    if rng.random() < 0.5:
        kw["effective_dy"] = rng.choice([0.5, np.array([abs(number(rng)) for _ in x])])
    if kind == "pdf":
        for k, v in (("qmax", [0.0, 0, 20, 17.3, np.float64(9.1)]), ("nyquist", [True, False]), ("scale", [True, False]), ("supersample", [4, 1.5, 7.0])):
            if rng.random() < 0.5:
                kw[k] = rng.choice(v)
    if stage == "settings" and rng.random() < 0.5 or stage == "fabricated":
        for k, v in kw.items():  # attributes set one by one, nothing defaulted
            setattr(o, k, [t for t in v] if k == "rng" else v * np.ones(len(x)) if k == "effective_dy" else v)
        if rng.random() < 0.4:
            o.baseline = bf
    else:
        k, v = call(lambda: o.setvars(**kw))
        if k != "ok":
            return None
    if kind == "pdf" and rng.random() < 0.5:
        o.filename = rng.choice(["/a b/c.gr", "it's \"q\".gr", None, "x\\y#z.gr", "\n## Results.gr"])
        o.qmax_reportedbypdf = rng.choice([None, 0.0, 25.0, 1 / 3])
        o.qmax_fromdata = rng.choice([None, 0.0, np.float64(25.1)])
    if stage in ("result", "fabricated"):
        o.extracted = cluster(rng, x, y, o.pf + pfs if o.pf is not None and rng.random() < 0.5 else pfs, o.baseline, ip)
        o.extraction_type = rng.choice(["extract", "fit", "extract_single", "fit_single"])
    return o


def real(rng, kind):
    """A result of the extraction itself."""
    x = np.arange(1.0, 6.0, 0.1 if kind == "pdf" else 0.2)
    g, h = GaussianOverR(1.2), Gaussian(1.4)
    pks = Peaks([q.actualize([2.1 + 1.7 * i + rng.uniform(-0.2, 0.2), 0.5, rng.uniform(3, 9)], "pwa") for i, q in enumerate([g, h])])
    y = pks.value(x) + 0.01 * np.array([rng.gauss(0, 1) for _ in x])
    o = (PDFPeakExtraction if kind == "pdf" else PeakExtraction)()
    o.setdata(x, y)
    kw = {"pf": rng.choice([[g], [g, h]]), "effective_dy": 0.05, "baseline": rng.choice([None, Polynomial(0), Polynomial(1)]), "rng": rng.choice([None, [1.25, 5.5]])}
    if kind == "pdf":
        kw.update(qmax=rng.choice([0.0, 15.0]), nyquist=rng.random() < 0.7)
    kw = {k: v for k, v in kw.items() if v is not None}
    if rng.random() < 0.5:
        kw["initial_peaks"] = Peaks([p.copy() for p in pks])
        k, v = call(lambda: (o.setvars(**kw), o.fit() if kind == "pdf" else o.fit_single()), timeout=60)
    else:
        k, v = call(lambda: (o.setvars(**kw), o.extract() if kind == "pdf" else o.extract_single()), timeout=60)
    return o if k == "ok" and o.extracted is not None else None


# ------------------------------------------------------------------ damage
def hurt(rng, t, kind):
    """A damaged copy of the text and why it must be refused; None when it does not apply."""
    low = ["empty", "garbage", "no data line", "data not numeric", "data line with a value too many", "missing section", "missing field", "unknown function",
           "owner outside the list", "peak function outside the list", "unknown evaluator", "unreadable setting"]
    why = rng.choice(low)
    s = t
    if why == "empty":
        s = ""
    elif why == "garbage":
        s = rng.choice(["hello\nworld\n", "1 2 3\n2 3 4\n", t[: t.index("\n#")] if "\n#" in t else "x"])
    elif why == "no data line":
        s = re.sub(r"(?m)^#+ start data.*\n", "", s)
    elif why == "data not numeric":
        m = list(re.finditer(r"(?m)^#L.*\n(\S+) ", s))
        if m:
            m = rng.choice(m)
            s = s[: m.start(1)] + "abc" + s[m.end(1):]
    elif why == "data line with a value too many":
        m = list(re.finditer(r"(?m)^#L.*\n(\S+ )", s))
        if m:
            m = rng.choice(m)
            s = s[: m.start(1)] + "1 " + s[m.start(1):]
    elif why == "missing section":
        secs = ["ModelPeaks", "BaselineObject", "PeakFunctions", "BaselineFunctions"] if kind == "cluster" else \
            ["Results", "ModelCluster", "SrMiseMetadata", "InitialPeaks", "BaselineObject", "PeakFunctions", "BaselineFunctions", "Metadata"]
        sec = rng.choice(secs)
        why += " " + sec
        s = re.sub(r"(?m)^#+ %s\s*$\n" % sec, "", s, count=0 if sec != "BaselineObject" else 1)
        if sec in ("InitialPeaks", "Metadata", "BaselineObject") and not re.search(r"(?m)^#+ %s\s*$" % sec, t):
            s = t
        if sec == "Metadata" and kind != "pdf":
            s = t
    elif why == "missing field":
        f = rng.choice(["peak_funcs", "ModelEvaluator", "slice"] if kind == "cluster" else ["pf", "cres", "ModelEvaluator", "Range", "extraction_type"] + (META if kind == "pdf" else []))
        why += " " + f
        s = re.sub(r"(?m)^%s=.*\n" % f, "", s)
    elif why == "unknown function":
        s = re.sub(r"(?m)^function=.*$", "function=NoSuchThing", s, count=1)
    elif why == "owner outside the list":
        s = re.sub(r"(?m)^owner=\d+", "owner=%d" % rng.randint(50, 99), s, count=1)
    elif why == "peak function outside the list":
        s = re.sub(r"(?m)^(pf|peak_funcs)=\[.*$", r"\1=[77]", s, count=1)
    elif why == "unknown evaluator":
        s = re.sub(r"(?m)^ModelEvaluator=.*$", "ModelEvaluator=Nonesuch", s, count=1)
    elif why == "unreadable setting":
        s = re.sub(r"(?m)^(cres|slice)=.*$", r"\1=(1,", s, count=1)
    return None if s == t else (why, s)


def one(rng, ck, kind, tok, o, n):
    ev, files = [], []
    objs = [o]

    def save(p):
        before = snap(p, tok)
        if kind != "cluster" and rng.random() < 0.4:
            path = os.path.join(ck.tmp, "f%d" % len(files))
            k, v = call(p.write, path)
            t = open(path).read() if k == "ok" else ""
        else:
            k, v = call(p.writestr)
            t = v if k == "ok" else ""
        files.append(t)
        ev.append({"op": "save", "r": k if k == "ok" else v[0], "kept": before == snap(p, tok), "p": before})
        return k == "ok"

    def load(i):
        t = files[i]
        if kind == "cluster":
            k, q = call(ModelCluster.factory, t)
            want = None
        else:
            q = type(o)() if rng.random() < 0.5 else rng.choice(objs[1:] + [fabricate(rng, kind) or type(o)()])
            if rng.random() < 0.4:
                path = os.path.join(ck.tmp, "g")
                with open(path, "w") as f:
                    f.write(t)
                k, v = call(q.read, path)
                want = "SrMiseFileError"
            else:
                k, v = call(q.readstr, t)
                want = "SrMiseDataFormatError"
            if k != "ok":  # what a refused text leaves behind is unspecified
                objs[:] = [z for z in objs if z is not q]
                k, q = "err", v
        e = {"op": "load", "k": i + 1}
        if k == "ok":
            e.update(r="ok", p=snap(q, tok))
            if not any(q is z for z in objs):
                objs.append(q)
        else:
            e["r"] = "refused" if want is None and q[0] != "TIMEOUT" or want in q else "error " + q[0]
        ev.append(e)

    if not save(o):
        return ev
    for _ in range(n):
        a = rng.random()
        if a < 0.4:
            load(rng.randrange(len(files)))
        elif a < 0.6:
            if not save(rng.choice(objs or [o])):
                return ev
        else:
            i = rng.randrange(len(files))
            d = hurt(rng, files[i], kind)
            if d is not None and not any(e["op"] == "damage" and len(files) and files[i] == "" for e in ev) and i + 1 not in bad_files(ev):
                files.append(d[1])
                ev.append({"op": "damage", "k": i + 1, "why": d[0]})
                load(len(files) - 1)
    return ev


def bad_files(ev):
    out, n = set(), 0
    for e in ev:
        if e["op"] in ("save", "damage"):
            n += 1
            if e["op"] == "damage":
                out.add(n)
    return out


def run(ck):
    ck.model_check("Store", "CONSTANTS Vals = {1, 2} NObj = 2 NFile = %d Depth = %d\nSPECIFICATION Spec\nINVARIANT Refl Sym Sharing\nPROPERTY SavedSame\nCHECK_DEADLOCK FALSE\n"
                   % ((1, 4) if ck.quick else (2, 4)), "small objects saved, damaged and loaded")
    tok = Intern()
    tr = []
    for kind in ("plain", "pdf", "cluster"):
        for _ in range(ck.budget(450, 1800)):
            o = fabricate(ck.rng, kind)
            if o is not None:
                tr.append({"ev": one(ck.rng, ck, kind, tok, o, ck.rng.randint(2, 7)), "note": kind})
        if kind != "cluster":
            for _ in range(ck.budget(12, 60)):
                o = real(ck.rng, kind)
                if o is not None:
                    tr.append({"ev": one(ck.rng, ck, kind, tok, o, 4), "note": "real " + kind})
                    m = o.extracted
                    tr.append({"ev": one(ck.rng, ck, "cluster", tok, m, 4), "note": "cluster of a real " + kind})
    ck.validate("StoreTrace", tr, what="recorded histories of saving, loading and damage")
