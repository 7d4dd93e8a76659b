"""Random extraction problems, run with the real extraction, and what they left behind."""
import numpy as np
from vlib import call, fx, ranks, Intern, CaseTimeout
from diffpy.srmise import srmiselog
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples

H = 0.125  # spacing unit of the data; exact in binary, so distances are


class Problem:
    """Data with peaks on a baseline, settings and initial peaks."""

    def __init__(self, rng, pdf=False, big=False, uniform=None):
        self.rng, self.pdf = rng, pdf
        n = self.n = rng.choice([6, 10, 15, 20, 30, 40] + [60, 80] * big)
        self.uniform = uniform if uniform is not None else rng.random() < 0.7
        xi = [rng.randint(8, 12)]
        while len(xi) < n:
            xi.append(xi[-1] + (1 if self.uniform else rng.choice([1, 1, 1, 2, 3])))
        self.xi = xi
        self.x = H * np.array(xi, float)
        span = self.x[-1] - self.x[0]
        self.f = Gaussian(rng.choice([0.7, 1.5]))
        self.g = GaussianOverR(rng.choice([0.7, 1.5]))
        k = rng.choice([1, 2, 3, 4]) if n > 12 else rng.choice([0, 1, 2])
        true = [rng.choice([self.f, self.g]).actualize(
            [self.x[0] + span * rng.random(), rng.uniform(0.25, 0.65), rng.uniform(0.3, 3)], "pwa") for _ in range(k)]
        sd = rng.choice([0.01, 0.05, 0.2])
        nr = np.random.RandomState(rng.randrange(2 ** 31))
        self.slope = rng.choice([0.0, 0.0, -0.2, 0.3])
        self.const = rng.choice([0.0, 0.0, 1.0])
        self.y = Peaks(true).value(self.x) + self.slope * self.x + self.const + sd * nr.randn(n)
        self.edy = sd * nr.uniform(0.7, 2.0, n) if rng.random() < 0.5 else sd * np.ones(n)
        t = rng.random()
        free = lambda m: [rng.random() < 0.7 for _ in range(m)]
        if t < 0.5:
            d = rng.choice([-1, 0, 1])
            p = {-1: [], 0: [self.const], 1: [self.slope, self.const]}[d]
            self.bl = Polynomial(d).actualize(p, "internal", free=free(d + 1))
        elif t < 0.65:
            xs = np.linspace(self.x[0] - 1, self.x[-1] + 1, 8)
            self.bl = FromSequence(xs, self.slope * xs + self.const).actualize([], "internal")
        else:
            self.bl = Polynomial(rng.choice([0, 1]))
        self.pf = rng.choice([[self.f], [self.g], [self.f, self.g]])
        self.em = rng.choice([AIC, AIC, AICc])
        self.ip = Peaks()
        self.ripples = TerminationRipples(self.f, 31.0)
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            o = rng.choice([self.f, self.g, self.ripples] if pdf else [self.f, self.g])
            if true and rng.random() < 0.6:
                q = rng.choice(true)
                pars = [q["position"] + rng.uniform(-0.05, 0.05), rng.uniform(0.3, 0.6), rng.uniform(0.3, 2.5)]
            else:
                pars = [self.x[0] + span * rng.random(), rng.uniform(0.3, 0.6), rng.uniform(0.1, 1.5)]
            self.ip.append(o.actualize(pars, "pwa", free=[rng.random() < 0.6 for _ in range(3)], removable=rng.random() < 0.5,
                                       static_owner=rng.random() < 0.25))
        self.ip.sort()
        lo, hi = 0, n - 1
        if rng.random() < 0.6 and n > 8:
            lo = rng.choice([0, rng.randint(0, n // 3)])
            hi = rng.choice([n - 1, rng.randint(n // 2, n - 1)])
        a, b = rng.choice([-1, 0, 0, 1]), rng.choice([-1, 0, 0, 1])  # a quarter of a step off the point
        self.rng2 = [None if lo == 0 and rng.random() < 0.5 else self.x[lo] + a * H / 4,
                     None if hi == n - 1 and rng.random() < 0.5 else self.x[hi] + b * H / 4]
        self.res = rng.choice([1, 2, 3, 4, 6])
        self.settings = dict(pf=self.pf, baseline=self.bl, effective_dy=self.edy.copy(), error_method=self.em, initial_peaks=self.ip,
                             rng=list(self.rng2), cres=self.res * H)
        if pdf:
            self.qmax = rng.choice([0.0, rng.uniform(4, 9), rng.uniform(9, 22), rng.uniform(22, 60)])
            self.nyquist = rng.choice([True, True, False])
            self.scale = rng.random() < 0.4
            self.ss = rng.choice([1.0, 1.5, 4.0, 4.0])
            self.settings.update(qmax=self.qmax, nyquist=self.nyquist, scale=self.scale, supersample=self.ss)
            if rng.random() < 0.4:
                self.settings.pop("cres")
        p = self.p = PDFPeakExtraction() if pdf else PeakExtraction()
        p.setdata(self.x, self.y, 0.01 * np.ones(n), self.edy)
        p.setvars(**self.settings)

    def state(self):
        """Everything the user gave, as comparable text."""
        p = self.p
        part = lambda m: (id(m.owner()), [repr(float(v)) for v in m.pars], [bool(f) for f in m.free], bool(m.removable), bool(m.static_owner))
        arr = lambda a: None if a is None else [repr(float(v)) for v in a]
        out = {"x": arr(p.x), "y": arr(p.y), "dx": arr(p.dx), "dy": arr(p.dy), "effective_dy": arr(p.effective_dy),
               "initial_peaks": [part(m) for m in p.initial_peaks], "peak list": [id(m) for m in p.initial_peaks],
               "baseline": part(p.baseline), "baseline object": id(p.baseline), "rng": arr(p.rng), "cres": repr(p.cres),
               "pf": [id(f) for f in p.pf], "error_method": id(p.error_method)}
        for f in (self.f, self.g):
            out["function %d" % id(f)] = repr(f.maxwidth)
        if self.pdf:
            out.update({k: repr(getattr(p, k)) for k in ("qmax", "nyquist", "scale", "supersample")})
        return {k: repr(v) for k, v in out.items()}


def stretch(whole, part):
    """First and last point of part as points (from 1) of whole; impossible ones if it is not a stretch of it."""
    i = int(np.searchsorted(whole, part[0]))
    return [i + 1, i + len(part)] if np.array_equal(whole[i:i + len(part)], part) else [0, -1]


class Watch(srmiselog.TracePeaks):
    """Stands in for the tracer of the code: sees the regions after every step, run by run."""

    def __init__(self):
        srmiselog.TracePeaks.__init__(self)
        self.stack, self.runs, self.tok, self.depth = [], [], Intern(), 0

    def pushc(self):
        srmiselog.TracePeaks.pushc(self)
        self.depth += 1

    def popc(self):
        srmiselog.TracePeaks.popc(self)
        self.depth -= 1

    def pushr(self):
        srmiselog.TracePeaks.pushr(self)
        self.stack.append({"depth": len(self.stack) + 1, "steps": [], "nested": []})
        self.runs.append(self.stack[-1])

    def popr(self):
        srmiselog.TracePeaks.popr(self)
        if self.stack:
            run = self.stack.pop()
            if self.stack and "r" in run:
                self.stack[-1]["nested"].append(run["r"])

    def emit(self, *mcs, **kwds):
        if not self.stack:
            return
        run = self.stack[-1]
        m0 = mcs[0]
        if "r" not in run:
            run["at"] = self.depth  # pruning reports too, from further down
            run["r"] = np.array(m0.r_data)
            run["y"] = np.array(m0.y_data)
            run["resid"] = run["y"] - (m0.baseline.value(run["r"]) if m0.baseline is not None else 0)
        if self.depth != run["at"] or len(run["r"]) == 1:
            return
        nest, run["nested"] = [stretch(run["r"], r) for r in run["nested"]], []
        one = lambda m: self.tok(repr([(id(p.owner()), [float(v) for v in p.pars], list(map(bool, p.free)), bool(p.removable)) for p in m.model]))
        same = all(np.array_equal(m.r_data, run["r"]) and np.array_equal(m.y_data, run["y"]) for m in mcs)
        cut = all(np.array_equal(m.r_cluster, run["r"][m.slice]) and np.array_equal(m.y_cluster, run["y"][m.slice])
                  and np.array_equal(m.error_cluster, m.y_error[m.slice]) and m.size == len(m.r_cluster) for m in mcs)
        order = all(a["position"] <= b["position"] for m in mcs for a, b in zip(m.model, list(m.model)[1:]))
        run["steps"].append({"cl": [[int(i) + 1, int(j)] for i, j, _ in (m.slice.indices(len(run["r"])) for m in mcs)],
                             "dg": [one(m) for m in mcs], "same": same, "cut": cut, "sorted": order, "nest": nest})


class watching:
    """with watching() as w: the code's extraction reports its steps to w."""

    def __enter__(self):
        self.old = srmiselog.tracer
        srmiselog.tracer = Watch()
        return srmiselog.tracer

    def __exit__(self, *a):
        srmiselog.tracer = self.old


def units(a, u=H):
    """Positions as whole numbers of u (exact for the data made here)."""
    v = np.asarray(a, float) / u
    i = np.rint(v)
    return [int(k) for k in i] if np.all(np.abs(v - i) < 1e-6) else None


class Book:
    """Peaks, functions and results as small comparable values."""

    def __init__(self):
        self.own, self.tok = Intern(), Intern()
        self.keep = []  # keeps functions alive, so that their ids stay theirs

    def owner(self, f):
        self.keep.append(f)
        return self.own(id(f))

    def peak(self, p):
        full = ["%r" % float(v) for v in p.pars]
        free = [bool(f) for f in p.free]
        d = {"o": self.owner(p.owner()), "free": free, "rem": bool(p.removable), "static": bool(p.static_owner),
             "fixed": self.tok(repr([v for v, f in zip(full, free) if not f])), "pos": fx(p["position"])}
        d["all"] = self.tok(repr((d["o"], free, d["rem"], d["static"], full)))
        return d

    def peaks(self, ps):
        return [self.peak(p) for p in (ps if ps is not None else [])]

    def result(self, p):
        e = p.extracted
        return {"on": e is not None, "peaks": self.peaks(e.model) if e is not None else []}


def covok(cov, e, fmt="default_output"):
    """The covariance, where there is one, has the parts of the result, in order, with their values."""
    if cov is None or cov.cov is None:
        return cov is not None
    parts = list(e.model)
    if e.baseline is not None and e.baseline.npars(False) > 0:
        parts.append(e.baseline)
    if len(cov.model) != len(parts) or np.shape(cov.cov) != (sum(len(m.pars) for m in parts),) * 2:
        return False
    for a, b in zip(cov.model, parts):
        if a.owner() is not b.owner() or list(a.free) != list(b.free):
            return False
        try:
            v = b.owner().transform_parameters(b.pars, "internal", fmt)
        except Exception:
            v = b.pars  # formats a function does not know leave its parameters as they are
        if len(v) != len(a.pars) or not np.allclose(a.pars, v, rtol=1e-4, atol=1e-7):
            return False
    c = np.asarray(cov.cov)
    return not np.all(np.isfinite(c)) or bool(np.allclose(c, c.T, rtol=1e-6, atol=1e-12 + 1e-9 * np.max(np.abs(c), initial=0)))


def diff(a, b, skip=()):
    return sorted(k for k in a if a[k] != b.get(k) and k not in skip)


def growths(P, w, top):
    """Traces of the runs of growth seen by w."""
    out = []
    lo, hi = limits(P)
    for k, run in enumerate(w.runs):
        if not run["steps"]:
            continue
        x = units(run["r"])
        tr = {"kind": "growth", "ev": [], "note": {"depth": run["depth"]}}
        if run["depth"] == 1:
            resid = top
            pts = [P.xi.index(v) + 1 if v in P.xi else 0 for v in x or [0]]
            tr["ev"].append({"op": "window", "x": [4 * v for v in P.xi], "lo": lo, "hi": hi, "points": pts})
        else:
            resid = run["resid"]
        tr["d"] = {"x": x or [], "y": ranks(list(map(float, resid))), "res": P.res}
        tr["ev"] += [dict(s, op="step") for s in run["steps"]] + [{"op": "end"}]
        if x is None or len(tr["d"]["y"]) != len(x):
            tr["ev"] = [{"op": "growth over points which are not data"}]
        out.append(tr)
    return out


def limits(P):
    lo = -10 ** 6 if P.rng2[0] is None else int(round(P.rng2[0] * 4 / H))
    hi = 10 ** 6 if P.rng2[1] is None else int(round(P.rng2[1] * 4 / H))
    return lo, hi


def history(rng, nops=4, big=False):
    """A history on one object, as a trace, and the growth traces of its extractions."""
    P = Problem(rng, False, big=big)
    p, B = P.p, Book()
    lo, hi = limits(P)
    win = [i for i in range(P.n) if lo <= 4 * P.xi[i] <= hi]
    pre = P.state()
    tr = {"kind": "history", "x": [4 * v for v in P.xi], "lo": lo, "hi": hi, "ip": B.peaks(p.initial_peaks), "pf": [B.owner(f) for f in P.pf], "ev": []}
    grown = []
    ops = ["extract_single"] + [rng.choice(["extract_single", "fit_single", "estimate", "add", "estimate"]) for _ in range(nops - 1)]
    rng.shuffle(ops)
    if rng.random() < 0.4:
        ops.append(rng.choice(["extract_single", "fit_single"]))
    for op in ops:
        pre = P.state()
        ev = {"op": op, "ok": True, "refused": False, "found": []}
        if op in ("extract_single", "fit_single"):
            ev["cfg"] = B.tok(repr(sorted(pre.items())))
            bl0 = p.baseline.copy() if hasattr(p.baseline, "pars") else None
            top = None
            if bl0 is not None:
                top = (P.y - bl0.value(P.x) - p.initial_peaks.value(P.x))[win]
            with watching() as w:
                k, cov = call(getattr(p, op), timeout=240)
            if k != "ok" or p.extracted is None:
                ev["ok"] = False
                ev["error"] = str(cov)
                tr["ev"].append(ev)
                break
            e = p.extracted
            if op == "extract_single" and top is not None:
                grown += growths(P, w, top)
            ev["type"] = str(p.extraction_type)
            ev["x"] = units(e.r_cluster, H / 4) or []
            ev["data"] = bool(len(e.y_cluster) == len(win) and np.allclose(e.y_cluster, P.y[win], rtol=1e-9, atol=1e-9)
                              and np.array_equal(e.error_cluster, P.edy[win]) and len(e.r_data) == len(win))
            b = e.baseline
            ev["baseline"] = bl0 is None or (b is not None and b.owner() is bl0.owner() and list(b.free) == list(bl0.free)
                                             and all(u == v for u, v, f in zip(b.pars, bl0.pars, bl0.free) if not f))
            ev["cov"] = covok(cov, e)
            ev["res"] = B.tok(repr(([x["all"] for x in B.peaks(e.model)], None if b is None else list(map(float, b.pars)), None if cov.cov is None else np.asarray(cov.cov).tolist())))
        elif op == "estimate":
            ev["at"] = rng.randint(4 * P.xi[0] - 4, 4 * P.xi[-1] + 4)
            ev["add"] = rng.random() < 0.7
            k, v = call(p.estimate_peak, ev["at"] * H / 4, ev["add"], timeout=240)
            ev["ok"], ev["refused"] = k == "ok", k == "err" and "ValueError" in v
            ev["found"] = B.peaks([v]) if k == "ok" and v is not None else []
        else:
            new = Peaks([rng.choice([P.f, P.g]).actualize([P.x[0] + (P.x[-1] - P.x[0]) * rng.random(), rng.uniform(0.3, 0.6), rng.uniform(0.1, 1.5)], "pwa",
                                                           removable=rng.random() < 0.6) for _ in range(rng.choice([1, 1, 2]))])
            ev["found"] = B.peaks(new)
            k, v = call(p.add_peaks, new)
            ev["ok"] = k == "ok"
        post = P.state()
        ev["ip"], ev["ex"] = B.peaks(p.initial_peaks), B.result(p)
        ev["changed"] = diff(pre, post, ("initial_peaks", "peak list") if op in ("estimate", "add") else ("rng", "baseline", "baseline object") if bl0 is None else ())
        tr["ev"].append(ev)
    tr["note"] = {k: repr(v) for k, v in P.settings.items() if k in ("rng", "cres", "baseline")}
    return tr, grown


def exact_resample(rng):
    """Resampling where every position is a whole number of eighths of the spacing."""
    U = 8
    n = rng.randint(2, 12)
    h = rng.choice([0.125, 0.25, 1.0])
    i0 = rng.randint(0, 6)
    off = rng.choice([0, 0, rng.randint(0, U - 1)])
    xi = [U * (i0 + k) + off for k in range(n)]
    y = [rng.randint(-4, 4) for _ in range(n)]
    dx, dy = [rng.randint(0, 5) for _ in range(n)], [rng.randint(1, 4) for _ in range(n)]
    hasdx = rng.random() < 0.7
    lo = rng.choice([-10 ** 6, xi[0] - 3, rng.randint(xi[0], xi[-1])])
    hi = rng.choice([10 ** 6, xi[-1] + 5, rng.randint(xi[0], xi[-1])])
    if min(hi, xi[-1]) <= max(lo, xi[0]):
        lo, hi = -10 ** 6, 10 ** 6
    u = h / U
    q = rng.choice([0, 2, 3, 4, 6, 8, 9, 16])
    nyq, scale = rng.random() < 0.7, rng.random() < 0.7
    p = PDFPeakExtraction()
    p.setdata(u * np.array(xi, float), np.array(y, float), np.array(dx, float) if hasdx else None, np.array(dy, float))
    p.setvars(quiet=True, qmax=np.pi / (q * u) if q else 0.0, nyquist=nyq, scale=scale, supersample=4.0, effective_dy=np.array(dy, float), pf=[Gaussian(0.7)],
              rng=[None if lo == -10 ** 6 else lo * u, None if hi == 10 ** 6 else hi * u], cres=1.0)
    tr = {"x": xi, "y": y, "dx": dx, "dy": dy, "hasdx": hasdx, "lo": lo, "hi": hi, "qdr": q, "nyquist": nyq, "scale": scale, "ev": [], "note": {"h": h}}
    st = lambda: {k: repr(np.asarray(getattr(p, k)).tolist()) for k in ("x", "y", "dx", "dy", "effective_dy", "rng")}
    for _ in range(2):
        d = rng.choice([1, 2, 3, 4, 5, 8, 12])
        a = st()
        k, v = call(p.resampledata, d * u)
        ev = {"op": "resample", "dr": d, "ok": k == "ok", "changed": diff(a, st())}
        if k == "ok":
            r, yy, re, ye = v
            ev.update(r=units(r, u) or [], y=[fx(t, 10 ** 4) for t in yy], re=[] if re is None else [fx(t, 1000) for t in re], ye=[fx(t, 100) for t in ye])
        else:
            ev["error"] = str(v)
        tr["ev"].append(ev)
    return tr


def pdf_history(rng, nops=2):
    """PDF extractions and fits on one object, as a trace."""
    win = []
    while len(win) < 2:  # a single point spans nothing that could be sampled
        P = Problem(rng, True, uniform=True)
        lo, hi = limits(P)
        win = [i for i in range(P.n) if lo <= 4 * P.xi[i] <= hi]
    p, B = P.p, Book()
    a = max(P.x[0], -np.inf if P.rng2[0] is None else P.rng2[0])
    b = min(P.x[-1], np.inf if P.rng2[1] is None else P.rng2[1])
    dn = np.pi / P.qmax if P.qmax > 0 else H
    finer = P.qmax > 0 and dn / H < P.ss
    work = np.arange(a, b, dn / P.ss) if finer else P.x[win]
    base = lambda f: f.base if isinstance(f, TerminationRipples) else f

    def peak(m):
        d, f = B.peak(m), m.owner()
        return dict(d, base=B.owner(base(f)), ripple=isinstance(f, TerminationRipples), q=B.tok(repr(float(f.qmax))) if isinstance(f, TerminationRipples) else 0)

    tr = {"qpos": P.qmax > 0, "nyquist": bool(P.nyquist), "qstep": fx(dn), "ss100": int(P.ss * 100), "finer": bool(finer), "q": B.tok(repr(float(P.qmax))),
          "first": fx(a), "last": fx(b), "points": [fx(v) for v in P.x[win]], "ip": [peak(m) for m in p.initial_peaks], "pf": [B.owner(f) for f in P.pf], "ev": [],
          "note": {"n": P.n, "qmax": P.qmax, "nyquist": P.nyquist, "scale": P.scale, "supersample": P.ss, "rng": repr(P.rng2)}}
    ops = [rng.choice(["extract", "extract", "fit"]) for _ in range(nops)]
    for op in ops:
        pre = P.state()
        ev = {"op": op, "cfg": B.tok(repr(sorted(pre.items())))}
        bl0 = p.baseline.copy() if hasattr(p.baseline, "pars") else None
        k, cov = call(getattr(p, op), timeout=240)
        ev["ok"] = k == "ok" and p.extracted is not None
        if not ev["ok"]:
            ev["error"] = str(cov)
            tr["ev"].append(ev)
            break
        e = p.extracted
        r = np.asarray(e.r_cluster)
        ev["r"] = [fx(v) for v in r]
        step = (r[-1] - r[0]) / (len(r) - 1) if len(r) > 1 else dn
        ondata = len(r) == len(win) and np.array_equal(r, P.x[win])
        s = max(np.sqrt(dn / step), 1.0) if P.qmax > 0 and P.nyquist and P.scale else 1.0
        if ondata:
            y, err = P.y[win], s * P.edy[win]
        else:
            y = np.array([np.sum(P.y * np.sinc((t - P.x) / H)) for t in r])
            err = s * np.interp(r, P.x, P.edy)
        ev["data"] = bool(np.allclose(e.y_cluster, y, rtol=1e-6, atol=1e-6) and np.allclose(e.error_cluster, err, rtol=1e-5, atol=1e-9) and len(e.r_data) == len(r))
        ev["type"] = str(p.extraction_type)
        ev["worklen"] = fx(work[-1] - work[0])
        ev["atmost"] = int(round(0.9999 * (work[-1] - work[0]) / step))
        ev["nfree"] = int(e.npars(count_fixed=False))
        ev["peaks"] = [peak(m) for m in e.model]
        bb = e.baseline
        ev["baseline"] = bl0 is None or (bb is not None and bb.owner() is bl0.owner() and list(bb.free) == list(bl0.free)
                                         and all(u == v for u, v, f in zip(bb.pars, bl0.pars, bl0.free) if not f))
        ev["cov"] = covok(cov, e)
        ev["res"] = B.tok(repr(([tuple(float(v) for v in m.pars) for m in e.model], None if bb is None else list(map(float, bb.pars)),
                                None if cov.cov is None else np.asarray(cov.cov).tolist(), ev["r"])))
        ev["changed"] = diff(pre, P.state(), ("rng", "cres", "baseline", "baseline object") if bl0 is None or len(tr["ev"]) == 0 else ())
        tr["ev"].append(ev)
    return tr
