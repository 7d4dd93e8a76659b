import contextlib, io, os
import matplotlib.pyplot as plt
import numpy as np
from vlib import call, Intern
from c13 import desc, peak, baseline, basefunc, peakfuncs
from c15 import what
from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelcluster import ModelCluster, ModelCovariance
from diffpy.srmise.modelevaluators import AIC
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakstability import PeakStability
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR

X = np.arange(1.0, 5.05, 0.1)


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return call(fn, *a, **k, timeout=120)


def chain(f):
    return [] if f is None else [what(f)] + chain(f.base)


def model(m):
    return None if m is None else repr([(desc(p), chain(p.owner()), type(p).__name__) for p in m])


def base(b):
    if b is not None and isinstance(b.owner(), NanoSpherical):  # signs do not matter to it
        b = b.copy()
        b.pars = np.abs(b.pars)
    return None if b is None else repr((desc(b), chain(b.owner()), type(b).__name__))


class Scripted(PDFPeakExtraction):
    """An extraction whose outcome is chosen by the test."""

    def script(self, rng, tok, pfs):
        self.rng_, self.tok_, self.pfs_ = rng, tok, pfs
        return self

    def extract(self, **kw):
        rng = self.rng_
        self.clearcalc()
        self.defaultvars()
        step = rng.choice([1, 1, 2, 3])
        r = self.x[self.getrangeslice()][::step]
        pk = Peaks([peak(rng, rng.choice(self.pfs_)) for _ in range(rng.randint(0, 3))])
        b = None if rng.random() < 0.15 else self.baseline.copy()
        if b is not None:
            for i in range(len(b.pars)):
                if rng.random() < 0.7:
                    b.pars[i] = rng.uniform(-3, 3)
        self.extracted = ModelCluster(pk, b, r, np.interp(r, self.x, self.y), np.interp(r, self.x, self.effective_dy), None, self.error_method, self.pf)
        self.extraction_type = "extract"
        return ModelCovariance()


def dr_of(c):
    return round((c.r_cluster[-1] - c.r_cluster[0]) / (len(c.r_cluster) - 1), 9)


def state(s, tok):
    res = [{"e": tok(float(r[0]).hex()), "m": tok(("m", model(r[1]))), "b": tok(("b", base(r[2]))), "dr": tok(("d", round(float(r[3]), 9)))} for r in s.results]
    p = s.ppe
    act = {"on": False, "e": 0, "m": 0, "b": 0, "dr": 0}
    if p is not None and p.extracted is not None:
        e = sorted({float(v).hex() for v in np.ravel(p.effective_dy)})
        full = len(np.ravel(p.effective_dy)) == len(p.x)
        act = {"on": True, "e": tok(e[0] if len(e) == 1 and full else repr(e)), "m": tok(("m", model(p.extracted.model))), "b": tok(("b", base(p.extracted.baseline))),
               "dr": tok(("d", dr_of(p.extracted)))}
    return {"res": res, "act": act}


def listen(ppe, log, tok):
    """Note what every extraction of ppe produced, at the time it did."""
    inner = ppe.extract

    def extract(*a, **k):
        dy = sorted({float(v).hex() for v in np.ravel(ppe.effective_dy)})
        cov = inner(*a, **k)
        c = ppe.extracted
        log.append({"e": tok(dy[0] if len(dy) == 1 else repr(dy)), "m": tok(("m", model(c.model))), "b": tok(("b", base(c.baseline))), "dr": tok(("d", dr_of(c))), "cov": tok(("cov", len(log), id(cov)))})
        log[-1]["_c"] = cov
        return cov

    ppe.extract = extract


def work(rng, c):
    """Something a user may do with what is in effect."""
    m = c.model
    a = rng.choice(["poke", "delete", "replace", "base", "free"])
    if a == "poke" and len(m):
        p = m[rng.randrange(len(m))]
        p.pars[rng.randrange(len(p.pars))] += 0.125
    elif a == "delete" and len(m):
        c.deletepeak(rng.randrange(len(m)))
    elif a == "replace":
        c.replacepeaks(Peaks([c.peak_funcs[0].actualize([2.5, 0.3, 1.0][: c.peak_funcs[0].npars] + [1.0] * max(0, c.peak_funcs[0].npars - 3), "internal")]))
    elif a == "base" and c.baseline is not None and len(c.baseline.pars):
        c.baseline.pars[0] += 0.5
    elif a == "free" and len(m):
        m[0].free[0] = not m[0].free[0]


def scripted(rng, tok):
    ppe = Scripted()
    pfs = peakfuncs(rng)
    ppe.setdata(X, np.array([rng.uniform(-5, 5) for _ in X]))
    bf = basefunc(rng)
    ppe.setvars(quiet=True, pf=rng.sample(pfs, rng.randint(1, len(pfs))), baseline=baseline(rng, bf), qmax=rng.choice([0.0, 12.0, 20.0]), cres=0.3, error_method=AIC,
                rng=rng.choice([[1.0, 5.0], [1.55, 4.25], None]))
    return ppe.script(rng, tok, pfs)


def real(rng, tok):
    g = GaussianOverR(1.0)
    y = sum(g.actualize([2.0 + 1.5 * i, 0.4, 3.0 + 2 * i], "pwa").value(X) for i in range(2)) + 0.02 * np.array([rng.gauss(0, 1) for _ in X])
    ppe = PDFPeakExtraction()
    ppe.setdata(X, y)
    ppe.setvars(quiet=True, pf=[g], baseline=rng.choice([Polynomial(0), Polynomial(-1)]), qmax=rng.choice([0.0, 14.0]), nyquist=rng.random() < 0.5, cres=0.4)
    return ppe


def one(ck, tok, src, n, size):
    rng = ck.rng
    ser = [PeakStability() for _ in range(2)]
    log = []
    ppe = src(rng, tok)
    listen(ppe, log, tok)
    ser[0].setppe(ppe)
    ev, files = [], []

    def emit(e):
        e["post"] = [state(s, tok) for s in ser]
        ev.append(e)

    def run():
        errs = [rng.choice([rng.uniform(0.05, 3), rng.randint(1, 4), np.float64(0.5), 0.25]) for _ in range(rng.randint(0 if size > 2 else 1, size))]
        want = rng.random() < 0.5
        log.clear()
        given = rng.choice([list, tuple, np.array])(errs)
        k, v = quiet(ser[0].run, given, want) if want or rng.random() < 0.5 else quiet(ser[0].run, given)
        got = [{a: b for a, b in l.items() if a != "_c"} for l in log]
        covs = []
        if k == "ok":
            for c in v:
                covs.append(next((l["cov"] for l in log if l["_c"] is c), -1))
        emit({"op": "run", "o": 1, "errs": [tok(float(x).hex()) for x in errs], "got": got, "want": want, "covs": covs, "r": "ok" if k == "ok" else v[0]})
        return k == "ok"

    if not run():
        return ev
    for _ in range(n):
        o = rng.randrange(2)
        s = ser[o]
        a = rng.choice(["select"] * 4 + ["work"] * 4 + ["save"] * 2 + ["load"] * 3 + ["animate"] * (rng.random() < 0.2) + (["run"] if size > 2 else []))
        if a == "run":
            if not run():
                return ev
        elif a == "select" and s.ppe is not None:
            i = rng.choice([0] + list(range(1, len(s.results) + 1)) * 2 + [len(s.results) + 2])
            k, v = quiet(s.setcurrent, i - 1 if i else None)
            emit({"op": "select", "o": o + 1, "i": i, "r": "ok" if k == "ok" else "refused" if v[0] != "TIMEOUT" else "error"})
        elif a == "work" and s.ppe is not None and s.ppe.extracted is not None:
            b = rng.random()
            if b < 0.8:
                call(work, rng, s.ppe.extracted)
            else:
                quiet(rng.choice([s.ppe.extracted.fit, s.ppe.extracted.prune, lambda: s.ppe.setvars(quiet=True, effective_dy=0.7)]))
            emit({"op": "work", "o": o + 1})
        elif a == "animate" and s.ppe is not None and s.results:
            n_, d = len(s.results), s.current
            show = rng.choice([None, [rng.randrange(n_) for _ in range(rng.randint(0, 2))]])
            k, v = quiet(s.animate, show)
            plt.close("all")
            emit({"op": "select", "o": o + 1, "i": 0 if d is None else d + 1, "r": "ok" if k == "ok" else "refused" if v[0] != "TIMEOUT" else "error"})
        elif a == "save" and s.ppe is not None:
            path = os.path.join(ck.tmp, "s%d" % len(files))
            k, v = quiet(s.save, path)
            emit({"op": "save", "o": o + 1, "r": "ok" if k == "ok" else v[0]})
            if k != "ok":
                return ev
            files.append(path)
        elif a == "load" and files:
            i = rng.randrange(len(files))
            k, v = quiet(ser[1].load, files[i])
            emit({"op": "load", "o": 2, "k": i + 1, "r": "ok" if k == "ok" else v[0]})
            if k != "ok":
                return ev
    return ev


def run(ck):
    ck.model_check("Series", "CONSTANTS Errs = {1, 2} Models = {1, 2} MaxRun = 2 NFile = %d Depth = %d\nSPECIFICATION Spec\nINVARIANT Faithful\nPROPERTY Selected\nCHECK_DEADLOCK FALSE\n"
                   % ((1, 4) if ck.quick else (2, 5)), "series run, selected, worked on, saved and loaded")
    tok = Intern()
    tr = [{"n": 2, "ev": one(ck, tok, scripted, ck.rng.randint(2, 14), 5), "note": "scripted"} for _ in range(ck.budget(600, 2000))]
    tr += [{"n": 2, "ev": one(ck, tok, real, 6, 2), "note": "real"} for _ in range(ck.budget(10, 40))]
    ck.validate("SeriesTrace", tr, what="recorded histories of series")
