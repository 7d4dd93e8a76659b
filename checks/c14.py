import itertools
import numpy as np
from vlib import call
from fakes import IPeak, IBase
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.pdfdataset import PDFDataSet
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.srmiseerrors import SrMiseEstimationError

NONE, AUTO = 2000000000, 1999999999


class SumBase(IBase):
    """Estimates the sums of the given positions and values, so the estimate shows the points used."""

    def estimate_parameters(self, r, y):
        return np.array([float(np.sum(r)), float(np.sum(y))])


class NoEstimate(IBase):
    def __init__(self, err):
        IBase.__init__(self, 1)
        self.err = err

    def estimate_parameters(self, r, y):
        raise self.err("scripted")


FN = SumBase(2)
BL = {"fn": FN, "badfn": NoEstimate(SrMiseEstimationError), "badfn2": NoEstimate(NotImplementedError),
      "b1": IBase(1).actualize([1], "internal"), "b2": Polynomial(1).actualize([1, 2], "internal")}
PF = {"p1": [IPeak(1)], "p2": [GaussianOverR(0.5), IPeak(2)]}
IP = {"i1": Peaks([PF["p1"][0].actualize([2], "internal")]), "i2": Peaks()}
EM = {"AIC": AIC, "AICc": AICc}


def th(v):
    return NONE if v is None else int(round(float(v) * 1000))


def name(table, v):
    for k, o in table.items():
        if o is v:
            return k
    return "other"


def proj(p, d):
    def get(n):
        return getattr(p, n) if d["pdf"] else None
    flag = lambda v: "none" if v is None else "t" if v is True else "f" if v is False else "other"
    eff = p.effective_dy
    pf = "none" if p.pf is None else name(PF, p.pf)
    width = 0.7 if d["pdf"] else float(p.x[-1] - p.x[0]) if p.x is not None else -1
    if pf == "other" and len(p.pf) == 1 and type(p.pf[0]) is GaussianOverR and p.pf[0].maxwidth == width:
        pf = "default"
    bl = p.baseline
    if bl is None:
        b = {"t": "none", "p": []}
    elif name(BL, bl) != "other":
        b = {"t": {"badfn2": "badfn"}.get(name(BL, bl), name(BL, bl)), "p": []}
    elif hasattr(bl, "owner") and bl.owner() is FN:
        b = {"t": "est", "p": [int(round(v)) for v in bl.pars]}
    elif hasattr(bl, "owner") and type(bl.owner()) is Polynomial and len(bl.pars) == 0:
        b = {"t": "default", "p": []}
    else:
        b = {"t": "other", "p": []}
    ip = p.initial_peaks
    return {"qmax": th(get("qmax")), "super": th(get("supersample")), "nyq": flag(get("nyquist")), "scale": flag(get("scale")),
            "cres": th(p.cres), "eff": [] if eff is None else [th(v) for v in eff] if np.ndim(eff) else [th(eff)],
            "rng": [] if p.rng is None else [NONE if v is None else int(v) if v == int(v) else -77777 for v in p.rng],
            "pf": pf, "bl": b, "em": "none" if p.error_method is None else name(EM, p.error_method),
            "ip": "none" if ip is None else name(IP, ip) if name(IP, ip) != "other" else
                  "default" if isinstance(ip, Peaks) and len(ip) == 0 else "other"}


def data(rng, pdf):
    n = rng.choice([2, 3, 5, 5, 9, 12])
    x = list(range(rng.randint(0, 3), 60, rng.randint(1, 3)))[:n]
    if rng.random() < 0.4:
        x = sorted(rng.sample(range(0, 40), n))
    y = [rng.randint(-9, 20) for _ in x]
    dy = rng.choice([[0] * n, [rng.randint(1, 4) for _ in x], [rng.randint(0, 2) for _ in x], [1] * (n - 1) + [0], [0] + [1] * (n - 1)])
    rep = rng.choice([None, None, 0.0, 2.5, 21.0]) if pdf else None
    return x, y, dy, rep


def value(rng, k, n, x):
    """(real value, spec encoding) of an explicit setting."""
    e = {"k": k, "i": 0, "t": "", "q": []}
    if rng.random() < 0.12:
        e.update(i=NONE, t="none", q=[])
        return None, e
    if k in ("effective_dy", "dg"):
        v = rng.choice([0.5, 3, [rng.randint(1, 5) / 2 for _ in range(n)], np.array([1.5] * n)])
        e["q"] = [th(t) for t in v] if np.ndim(v) else [th(v)]
        return v, e
    if k == "rng":
        lo, hi = sorted(rng.sample(range(n), 2))
        a = rng.choice([None, x[lo], x[lo], x[0] - 3, x[hi] - 1])
        b = rng.choice([None, x[hi], x[hi], x[-1] + 4])
        e["q"] = [NONE if t is None else t for t in (a, b)]
        return rng.choice([list, tuple])([a, b]), e
    if k in ("pf", "initial_peaks", "error_method", "baseline"):
        t = {"pf": PF, "initial_peaks": IP, "error_method": EM, "baseline": BL}[k]
        s = rng.choice(list(t))
        e["t"] = {"badfn2": "badfn"}.get(s, s)
        return t[s], e
    if k in ("nyquist", "scale"):
        v = rng.random() < 0.5
        e["t"] = "t" if v else "f"
        return v, e
    if k == "qmax" and rng.random() < 0.25:
        e["i"] = AUTO
        return "automatic", e
    v = {"qmax": [0, 0.0, 1.25, 22], "supersample": [1, 1.0, 4, 2.5, 0.999, 0, -2], "cres": [0.05, 1, 3.5]}.get(k, [1, 0.5])
    v = rng.choice(v)
    e["i"] = th(v)
    return v, e


NAMES = ["effective_dy", "rng", "pf", "initial_peaks", "baseline", "cres", "error_method"]
PDFN = ["qmax", "supersample", "nyquist", "scale", "dg"]


def walk(rng, pdf, script=None):
    p = (PDFPeakExtraction if pdf else PeakExtraction)()
    ev = []
    d = None
    known = NAMES + (PDFN if pdf else [])
    ops = script or ["data"] + [rng.choice(["set"] * 6 + ["default", "slice", "slice", "clearcalc", "clear", "data"]) for _ in range(rng.randint(2, 9))]
    cur = {"x": [], "y": [], "dy": [], "rep": NONE, "fromd": NONE, "pdf": pdf}
    for op in ops:
        if d is None and op != "data":
            continue
        e = {"op": op, "given": True, "r": "ok"}
        before = None if d is None else [np.array(a).tolist() for a in (p.x, p.y, p.dx, p.dy)]
        if op == "data":
            x, y, dy, rep = data(rng, pdf)
            how = rng.randint(0, 3)
            fresh = how > 0 or d is None or p.effective_dy is not None
            e["fresh"] = fresh
            args = (list(x), list(y), None, None if not any(dy) and rng.random() < 0.5 else np.array(dy, float))
            if pdf and fresh and (rep is not None or how == 1):
                ds = PDFDataSet("d")
                ds.robs, ds.Gobs, ds.drobs, ds.dGobs = (np.array(t, float) for t in (x, y, [0] * len(x), dy))
                ds.qmax = rep
                k, v = call(p.loadpdf, ds)
            else:
                if fresh:
                    p.clear()
                k, v = call(p.setdata, *args)
                rep = None
            if not fresh:
                rep = d["rep"]
            d = {"rep": rep}
            # the qmax found in the data: that of an extraction which never saw other data
            f = None
            if pdf:
                q = PDFPeakExtraction()
                q.setdata(*args)
                f = q.qmax_fromdata
            cur = {"x": x, "y": y, "dy": dy, "rep": th(rep), "fromd": th(f), "pdf": pdf}
            before = [np.array(a).tolist() for a in (x, y, [0] * len(x), dy)]
            e["d"] = cur
        elif op == "clear":
            p.extracted, p.extraction_type = "something", "extract"
            k, v = call(p.clear)
            d = before = None
        elif op == "clearcalc":
            p.extracted, p.extraction_type = "something", "extract"
            k, v = call(p.clearcalc)
        elif op == "set":
            ks = rng.sample(known, rng.choice([0, 1, 1, 1, 2, 3]))
            if rng.random() < 0.8 and "dg" in ks and "effective_dy" in ks:
                ks.remove("dg")
            if rng.random() < 0.06:
                ks.append(rng.choice(["junk", "Rng", "x", "dg2"] + ([] if pdf else ["qmax", "supersample"])))
            kv = [value(rng, t, len(p.x), cur["x"]) for t in ks]
            e["kw"] = [t[1] for t in kv]
            kw = {t: v[0] for t, v in zip(ks, kv)}
            copies = {t: list(v) for t, v in kw.items() if isinstance(v, (list, np.ndarray, tuple))}
            k, v = call(p.setvars, quiet=rng.random() < 0.5, **kw)
            e["given"] = all(list(kw[t]) == c for t, c in copies.items())
            if k == "err":
                e["r"] = "refused" if "ValueError" in v or "SrMiseQmaxError" in v else "error " + v[0]
                k = "ok"
        elif op == "default":
            ks = rng.sample(known, rng.choice([0, 0, 1, 1, 2, 3]))
            e["a"] = ks
            k, v = call(p.defaultvars, *ks)
        elif op == "slice":
            if p.rng is None or None in p.rng:
                continue
            k, v = call(p.getrangeslice)
            if k == "ok":
                e.update(lo=v.start + 1, hi=v.stop)
        if k != "ok":
            e["r"] = "error " + v[0]
            if op == "slice":
                e.update(lo=-9, hi=-9)
        e["nores"] = p.extracted is None and p.extraction_type is None
        e["data"] = (before is None and all(getattr(p, a) is None for a in ("x", "y", "dx", "dy"))) or (
            before is not None and p.x is not None and before == [np.array(a).tolist() for a in (p.x, p.y, p.dx, p.dy)])
        e["s"] = proj(p, cur)
        ev.append(e)
        if e["r"].startswith("error"):
            break
    return {"ev": ev, "pdf": pdf}


def run(ck):
    ck.model_check("Settings", "CONSTANTS Steps = %d\nSPECIFICATION Spec\nINVARIANT Explicit Complete Idempotent\nPROPERTY Independent\nCHECK_DEADLOCK FALSE\n"
                   % ck.budget(3, 4), "every sequence of settings and defaults over small data, with and without a PDF's qmax")
    n = ck.budget(2500, 20000)
    tr = [walk(ck.rng, i % 3 > 0) for i in range(n)]
    # every order of the kinds of step
    ops = ["set", "default", "slice", "clearcalc", "clear", "data"]
    for s in itertools.product(ops, repeat=3):
        tr += [walk(ck.rng, pdf, ["data", "set"] + list(s) + ["set", "slice"]) for pdf in (True, False)]
    ck.validate("SettingsTrace", tr, what="recorded histories of settings")
    # names that extractions of a further kind add
    for clash in NAMES:
        k, v = call(PeakExtraction, ["extra", clash])
        ck.expect(k == "err" and "ValueError" in v, "a new setting may not take the name of an existing one: " + clash, {"result": str(v)})
    p = PeakExtraction(["extra"])
    p.setdata([0, 1, 2], [1, 2, 1])
    k, v = call(p.setvars, extra=5)
    ck.expect(k == "ok" and p.extra == 5, "an added setting can be set")
