import math
import numpy as np
from vlib import call, fx
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples

U = 10 ** 4


def func(rng, qmax=None):
    kw = {}
    if rng.random() < 0.6:
        kw["extension"] = rng.choice([4.0, 2, 6.0, rng.uniform(1, 8)])
    if rng.random() < 0.5:
        kw["supersample"] = rng.choice([5.0, 6.0, 8])
    base = rng.choice([Gaussian, GaussianOverR])(rng.choice([0.7, 1.0]))
    return TerminationRipples(base, qmax or rng.choice([rng.uniform(8, 35), rng.randint(8, 35)]), **kw), kw.get("extension", 4.0)


def cut(rng):
    f, _ = func(rng)
    n = 2 ** rng.randint(2, 7)
    h = n // 2 + 1
    x = rng.choice([rng.uniform(0.2, n / 2 + 4), rng.randint(1, n // 2) + rng.choice([0, 0.5])])
    delta = 2 * math.pi * x / (n * f.qmax)
    t = np.arange(n)
    amp = [rng.choice([0, rng.uniform(-3, 3), 1.0]) for _ in range(h)]
    kind = [rng.random() < 0.5 and 0 < k < n // 2 for k in range(h)]  # sine or cosine; lowest and highest have no sine
    s = sum(v * (np.sin if q else np.cos)(2 * np.pi * k * t / n) for k, (v, q) in enumerate(zip(amp, kind)))
    s0 = s.copy()
    k, v = call(f.cut_freq, s, delta)
    e = {"op": "cut", "r": "ok" if k == "ok" and np.shape(v) == (n,) and np.isrealobj(v) else "refused", "X": int(round(100 * x)), "a": [fx(q, U) for q in amp], "b": [], "odd": 0,
         "kept": np.array_equal(s, s0)}
    if e["r"] == "ok":
        z = np.fft.rfft(v) / (n / 2)
        z[0] /= 2
        z[-1] /= 2
        e["b"] = [fx(-c.imag if q else c.real, U) for c, q in zip(z, kind)]
        e["odd"] = fx(max(abs(c.real if q else c.imag) for c, q in zip(z, kind)), U)
    return e


def linear(rng):
    f, _ = func(rng)
    n = rng.randint(2, 60)
    x, y = [np.array([rng.uniform(-2, 2) for _ in range(n)]) for _ in range(2)]
    m = rng.randint(-4, 4)
    d = rng.uniform(0.02, 0.4)
    k, v = call(lambda: [f.cut_freq(x, d), f.cut_freq(y, d), f.cut_freq(m * x + y, d)])
    g = lambda q: [fx(w, U) for w in q]
    return {"op": "linear", "r": "ok" if k == "ok" else "refused", "m": m, "x": g(v[0]) if k == "ok" else [], "y": g(v[1]) if k == "ok" else [], "sum": g(v[2]) if k == "ok" else []}


def grid(rng):
    f, ext = func(rng)
    dr = rng.choice([0.01, 0.02, 0.05, rng.uniform(0.005, 0.2), math.pi / f.qmax])
    first = rng.choice([rng.randint(1, 30) * 100, rng.randint(50, 3000), rng.randint(3000, 60000)])
    n = rng.choice([1, 2, rng.randint(3, 40)])
    r = (first / 100 + np.arange(n)) * dr
    k, v = call(f.extend_grid, r, dr)
    e = {"op": "grid", "r": "ok" if k == "ok" else "refused", "first": first, "ext": int(100 * ext * 2 * math.pi / f.qmax / dr), "same": False, "even": False, "g": {"left": 0, "right": 0}}
    if k == "ok":
        x, s = v
        lo, hi, _ = s.indices(len(x))
        e["same"] = bool(np.array_equal(x[s], r))
        e["even"] = bool(np.allclose(np.diff(x), dr, rtol=1e-6, atol=0) and x[0] > -1e-9)
        e["g"] = {"left": lo, "right": len(x) - hi}
    return e


def curve(rng):
    f, ext = func(rng)
    while ext < 4:  # a shorter extension is less exact at the ends
        f, ext = func(rng)
    w = rng.uniform(1.5 / f.qmax, min(0.6, 8 / f.qmax))
    pos = rng.uniform(1.5 + 4 * w, 12)
    b = f.base.actualize([pos, w, rng.uniform(0.5, 9)], "pwa")
    p = f.actualize(b.pars, "internal")
    reach = rng.uniform(0.7, 1.4) * ext * 2 * math.pi / f.qmax
    dr = rng.choice([0.01, 0.02, 0.05, math.pi / f.qmax, rng.uniform(0.01, 0.2)])
    lo = max(0.3, pos - reach * rng.uniform(0.1, 1) - w)
    n = max(3, int((pos + w + reach * rng.uniform(0.1, 1) - lo) / dr))
    r = lo + dr * np.arange(n)
    h = min(w / 60, 0.1 / f.qmax)
    t = np.arange(max(h, pos - 6 * w), pos + 6 * w, h)
    ft = b.value(t)
    top = float(np.max(ft))
    kept = p.pars.copy()
    how = rng.choice(["all", "all", "range", "one"])
    e = {"op": "curve", "outside": 0}
    if how == "all":
        k, v = call(p.value, r)
    elif how == "range":  # of which the peak is part
        m = int(np.argmin(np.abs(r - pos)))
        s = slice(rng.randint(0, m), rng.randint(m + 1, n))
        k, v = call(p.value, r, s)
        if k == "ok":
            e["outside"] = int(np.count_nonzero(v)) - int(np.count_nonzero(v[s]))
            r, v = r[s], v[s]
    else:
        i = int(np.argmin(np.abs(r - pos - rng.uniform(-w, w))))
        k, v = call(lambda: [p.value(float(r[i]))])
        r = r[i:i + 1]
    sc = 10 ** 5 / top
    e.update(r="ok" if k == "ok" else "refused", v=[fx(q, sc) for q in v] if k == "ok" else [], kept=np.array_equal(kept, p.pars),
             c=[fx(q, sc) for q in [np.sum(ft * np.sinc(f.qmax * (x - t) / np.pi)) * f.qmax / np.pi * h for x in r]],
             _note={"qmax": f.qmax, "ext": f.extension, "ss": f.supersample, "pos": pos, "w": w, "dr": dr, "how": how, "lo": lo, "n": n, "base": type(f.base).__name__})
    e["tol"] = 4000
    return e


def run(ck):
    ck.model_check("Ripples", "CONSTANTS Amps = {0, 1, 2} H = %d Xs = {0, 50, 100, 250, 400, 900}\nSPECIFICATION Spec\nINVARIANT Done Lower Parts\nPROPERTY Steady\nCHECK_DEADLOCK FALSE\n" % ck.budget(5, 7),
                   "all signals of few harmonics, cut twice")
    rng, n = ck.rng, ck.budget(2500, 10000)
    ck.validate("RipplesTrace", [{"ev": [f(rng)]} for f in (cut, linear, grid, curve) for _ in range(n)], what="recorded cuts, grids and curves")
