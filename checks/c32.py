import math
import numpy as np
from vlib import call, fx, ranks
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR


def pwa(p):
    return [float(v) for v in p.owner().transform_parameters(p, in_format="internal", out_format="pwa")]


def at(p, x):
    return float(p.value(np.array([x]))[0])


class Told:
    """Numbers for peaks: the same object with the same parameters has the same."""

    def __init__(self):
        self.d, self.keep = {}, []

    def __call__(self, p):
        self.keep.append(p)
        k = (id(p), tuple(float(v).hex() for v in p.pars), tuple(bool(v) for v in p.free), bool(p.removable), id(p.owner()))
        return self.d.setdefault(k, len(self.d) + 1)

    def peaks(self, ps):
        return [[self(p), float(p["position"])] for p in ps]


def rest(p, where, n):
    """everything but the peaks added to, as text"""
    a = lambda v: None if v is None else (np.asarray(v, dtype=float).tobytes(), np.shape(v))
    e = p.extracted
    t = [a(p.x), a(p.y), a(p.dx), a(p.dy), a(p.effective_dy), p.cres, [id(f) for f in p.pf], list(p.rng), id(p.baseline), a(p.baseline.pars), p.error_method, p.extraction_type,
         None if where == "initial" else n.peaks(p.initial_peaks)]
    if e is not None:
        t += [a(e.r_data), a(e.y_data), a(e.y_error), a(e.r_cluster), a(e.y_cluster), a(e.error_cluster), str(e.slice), id(e.baseline), a(e.baseline.pars), [id(f) for f in e.peak_funcs], e.error_method]
    return repr(t)


def problem(rng):
    pf = rng.choice([[Gaussian(2.0)], [GaussianOverR(2.0)], [Gaussian(1.5), GaussianOverR(1.5)], [GaussianOverR(1.5), Gaussian(1.5)]])
    w = rng.uniform(0.25, 0.7)
    dx = w / rng.uniform(5, 12)
    x0 = rng.choice([0.5, rng.uniform(0.3, 20), dx])
    H, pos = [], x0 + w * rng.uniform(1, 3)
    for _ in range(rng.randint(0, 4)):
        H.append([pos, w * rng.uniform(0.8, 1.2), rng.choice([1, 1, 1, -0.4]) * rng.uniform(0.5, 8)])
        pos += w * rng.uniform(4, 7)
    x = x0 + dx * np.arange(max(12, int((pos - x0) / dx)))
    bl = rng.choice([Polynomial(-1).actualize([], "internal"), Polynomial(0).actualize([rng.uniform(-2, 2)], "internal"), Polynomial(1).actualize([rng.uniform(-0.3, 0.3), rng.uniform(-2, 2)], "internal"),
                     FromSequence(np.linspace(x[0] - 1, x[-1] + 1, 5), [rng.uniform(-1, 1) for _ in range(5)]).actualize([], "internal")])
    known = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        c = rng.choice([rng.uniform(x[0], x[-1])] + [h[0] + rng.uniform(-0.3, 0.3) for h in H])
        known.append(rng.choice([Gaussian(2.0), GaussianOverR(2.0)] + pf).actualize([max(c, 0.2), w * rng.uniform(0.6, 1.5), rng.uniform(0.5, 6)], "pwa", free=[rng.random() < 0.7 for _ in range(3)],
                                                                                  removable=rng.random() < 0.6))
    y = bl.value(x) + sum((q.value(x) for q in known), np.zeros(len(x)))
    below = not H and rng.random() < 0.5
    if below:
        y = y - rng.uniform(0.1, 1)
    hs = []
    for h in H:
        q = pf[0].actualize([h[0], h[1], 1.0], "pwa")
        q = pf[0].actualize([h[0], h[1], abs(h[2]) / at(q, h[0])], "pwa")  # of the height wanted
        y = y + math.copysign(1, h[2]) * q.value(x)
        hs.append([h[0], h[1], math.copysign(at(q, h[0]), h[2])])
    return pf, w, dx, x, y, bl, known, hs, below


def ask(rng):
    pf, w, dx, x, y, bl, known, H, below = problem(rng)
    n = Told()
    p = rng.choice([PeakExtraction, PDFPeakExtraction])()
    dy = rng.choice([0.05, 0.5, 0.02 + np.abs(np.sin(x))])
    p.setdata(x.copy(), y.copy(), *rng.choice([(), (np.zeros(len(x)), np.ones(len(x)))]))
    where = rng.choice(["initial", "extracted"])
    em = rng.choice([AIC, AICc])
    r = None
    lo, hi = 0, len(x)
    if rng.random() < 0.3:
        lo, hi = rng.randint(0, len(x) // 4), len(x) - rng.randint(0, len(x) // 4)
        r = [float(x[lo]) - dx * 0.4, float(x[hi - 1]) + dx * 0.4]
    kw = dict(pf=pf, baseline=bl, effective_dy=dy, cres=w * rng.uniform(0.4, 0.9), error_method=em, rng=r)
    if rng.random() < 0.8 or where == "initial":
        kw["initial_peaks"] = Peaks(known if where == "initial" else [])
        kw["initial_peaks"].sort(key="position")
    if isinstance(p, PDFPeakExtraction):
        kw["qmax"] = rng.choice([0.0, 20.0])
    p.setvars(quiet=True, **kw)
    if where == "extracted":
        ps = Peaks(known)
        ps.sort(key="position")
        other = x.copy()
        # the extraction is of the same data, settings may have changed since
        p.extracted = ModelCluster(ps, bl, other, y.copy(), np.array(dy) * np.ones(len(x)), slice(lo, hi), em, pf)
        if rng.random() < 0.3:
            p.setvars(quiet=True, baseline=Polynomial(0).actualize([7.0], "internal"))
        if rng.random() < 0.3:
            p.initial_peaks.extend([pf[0].actualize([x[len(x) // 2], w, 5.0], "pwa")])
    T = lambda: p.initial_peaks if where == "initial" else p.extracted.model
    evs, left = [], list(H)
    vis = [h for h in H if x[lo] + 1.5 * h[1] <= h[0] <= x[hi - 1] - 1.5 * h[1]]
    clean = not any(h not in vis for h in H)
    for _ in range(rng.randint(1, 4)):
        before, was = n.peaks(T()), rest(p, where, n)
        if rng.random() < 0.25:
            new = [rng.choice(pf).actualize([rng.choice([rng.uniform(x[0], x[-1])] + [q[1] for q in before if q[1] > 0]), w, 1.0], "pwa") for _ in range(rng.randint(0, 3))]
            new.sort(key=lambda q: rng.random())
            c = Peaks(new)
            k, v = call(p.add_peaks, c)
            e = {"op": "add", "r": "ok" if k == "ok" else "refused", "others": was == rest(p, where, n) and [id(q) for q in c] == [id(q) for q in new], "before": before, "after": n.peaks(T()),
                 "new": n.peaks(new)}
            evs.append(e)
            left = None
        else:
            sure = [h for h in (left or []) if h in vis and h[2] > 0]
            if sure and rng.random() < 0.75:
                h = rng.choice(sure)
                at_x = h[0] + rng.uniform(-0.38, 0.38) * h[1]
            else:
                at_x = rng.choice([rng.uniform(x[lo], x[hi - 1]), float(x[lo]), float(x[hi - 1]), float(x[lo]) - rng.uniform(0.01, 3), float(x[hi - 1]) + rng.uniform(0.01, 3)])
            add = rng.random() < 0.6
            args, kws = rng.choice([((at_x, add), {}), ((at_x,), {"add": add})] + ([((at_x,), {})] if add else []))
            k, v = call(p.estimate_peak, *args, timeout=100, **kws)
            e = {"op": "ask", "r": ("ok" if v is not None else "none") if k == "ok" else "ValueError" if "ValueError" in v else v[0], "x": fx(at_x, 1000), "lo": 0, "hi": 0,
                 "add": add, "dy": fx(np.max(dy), 1000), "H": [], "got": {"id": 0, "rank": 0.0, "pos": 0, "w": 0, "h": 0}, "kind": True, "before": before, "after": n.peaks(T()), "others": was == rest(p, where, n),
                 "nothing": left == [] and clean, "below": below, "_note": {"where": where, "rng": r, "at": at_x, "H": H, "v": repr(v)}}
            # in or out as real numbers, by an integer apart
            e["lo"], e["hi"] = e["x"] - (1 if at_x >= x[lo] else -1), e["x"] + (1 if at_x <= x[hi - 1] else -1)
            if left is not None:
                e["H"] = [{"pos": fx(h[0], 1000), "w": fx(h[1], 1000), "h": fx(h[2], 1000)} for h in left if h in vis]
            if e["r"] == "ok":
                q = pwa(v)
                e["got"] = {"id": n(v), "rank": float(v["position"]), "pos": fx(q[0], 1000), "w": fx(q[1], 1000), "h": fx(at(v, q[0]), 1000)}
                e["kind"] = v.owner() is pf[0] and bool(v.removable) and all(v.free)
                if add and left is not None:
                    near = [h for h in left if abs(h[0] - q[0]) < 0.05 * h[1] and h in vis and h[2] > 0]
                    left = [h for h in left if h not in near] if near and abs(near[0][2] - at(v, q[0])) < 0.04 * near[0][2] else None
                    if left == []:
                        left = None  # what remains is rounding
            evs.append(e)
    return ranked(evs)


def ranked(evs):
    allp = sorted({q[1] for e in evs for q in e["before"] + e["after"] + e.get("new", [])} | {e["got"]["rank"] for e in evs if e["op"] == "ask"})
    rk = {v: i for i, v in enumerate(allp)}
    for e in evs:
        for k in ("before", "after", "new"):
            if k in e:
                e[k] = [{"id": q[0], "pos": rk[q[1]]} for q in e[k]]
        if e["op"] == "ask":
            e["got"]["rank"] = rk[e["got"]["rank"]]
    return evs


def bare(rng):
    """an extraction of which nothing but the data is given"""
    p = rng.choice([PeakExtraction, PDFPeakExtraction])()
    x = rng.choice([0.5, 3.0]) + 0.1 * np.arange(rng.randint(30, 60))
    g = GaussianOverR(float(x[-1] - x[0]))
    h = g.actualize([float(x[len(x) // 2]), rng.uniform(0.45, 0.65), rng.uniform(1, 5)], "pwa")
    p.setdata(x, h.value(x))
    n = Told()
    add, how = rng.random() < 0.6, rng.choice(["ask", "add", "add, ask"])
    e = []
    if "add" in how:
        new = [g.actualize([rng.choice([rng.uniform(1, 5), 300.0]), 0.3, 1.0], "pwa") for _ in range(rng.randint(0, 3))]
        for q in new:
            q.scale_at(q["position"], 1e-6)
        k, v = call(p.add_peaks, Peaks(new))
        e.append({"op": "add", "r": "ok" if k == "ok" else "refused", "others": p.extracted is None and np.array_equal(p.y, h.value(x)), "before": [], "after": n.peaks(p.initial_peaks or []), "new": n.peaks(new)})
    if "ask" in how:
        before = n.peaks(p.initial_peaks or [])
        at_x = pwa(h)[0] + rng.uniform(-0.15, 0.15)
        k, v = call(p.estimate_peak, at_x, add, timeout=100)
        q = pwa(v) if k == "ok" and v is not None else [0, 0, 0]
        e.append({"op": "ask", "r": ("ok" if v is not None else "none") if k == "ok" else v[0], "x": fx(at_x, 1000), "lo": fx(x[0], 1000), "hi": fx(x[-1], 1000), "add": add, "dy": fx(0.05 * np.max(p.y), 1000),
                  "H": [{"pos": fx(pwa(h)[0], 1000), "w": fx(pwa(h)[1], 1000), "h": fx(at(h, pwa(h)[0]), 1000)}],
                  "got": {"id": n(v) if any(q) else 0, "rank": float(v["position"]) if any(q) else 0.0, "pos": fx(q[0], 1000), "w": fx(q[1], 1000), "h": fx(at(v, q[0]), 1000) if any(q) else 0},
                  "kind": any(q) and bool(v.removable) and all(v.free), "before": before, "after": n.peaks(p.initial_peaks or []), "others": p.extracted is None and np.array_equal(p.y, h.value(x)),
                  "nothing": False, "below": False})
    return ranked(e)


def first(rng):
    """the first guess of a region without peaks"""
    pf, w, dx, x, y, bl, known, H, below = problem(rng)
    lo, hi = sorted(rng.sample(range(len(x) + 1), 2))
    while hi - lo < 3:
        lo, hi = sorted(rng.sample(range(len(x) + 1), 2))
    b = rng.choice([bl, bl, None])
    m = ModelCluster(None, b, x.copy(), y.copy(), 0.1 * np.ones(len(x)), slice(lo, hi), rng.choice([AIC, AICc]), pf)
    d = y[lo:hi] - (0 if b is None else b.value(x)[lo:hi])
    k, v = call(m.estimatepeak)
    j, g = call(pf[0].estimate_parameters, x[lo:hi], d)
    e = {"op": "first", "r": "ok" if k == "ok" else v[0], "told": bool(v) if k == "ok" else False, "found": len(m.model), "can": j == "ok", "same": True,
         "others": np.array_equal(m.y_data, y) and np.array_equal(m.r_data, x) and m.baseline is b}
    if j == "ok" and len(m.model):
        q = m.model[0]
        e["same"] = np.allclose(np.array(q.pars), np.array(g), rtol=1e-9, atol=1e-12) and q.owner() is pf[0] and bool(q.removable) and all(q.free)
    return [e]


def run(ck):
    ck.model_check("Asking", "CONSTANTS L = %d Tops = {0, 1, 2, 4}\nSPECIFICATION Spec\nINVARIANT Kept Single Explained Again End\nCHECK_DEADLOCK FALSE\n" % ck.budget(3, 4), "all questions about short data")
    n = ck.budget(1, 10)
    ck.validate("AskingTrace", [{"ev": f(ck.rng)} for f, c in ((ask, 1200), (bare, 120), (first, 300)) for _ in range(c * n)], what="peaks asked for and handed in")
