import math, os
import numpy as np
from vlib import call, fx, BIG
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction, find_qmax, stdratio


def ratio(rng):
    n = rng.choice([rng.randint(4, 12), rng.randint(4, 40)])
    top = rng.choice([1, 3, 30])
    d = [rng.randint(-top, top) for _ in range(n)]
    if rng.random() < 0.5:  # a signal that ends
        m = rng.randint(1, n)
        d = [v if i < m else v // 8 for i, v in enumerate(d)]
    a = np.array(d, dtype=rng.choice([float, int]))
    k, v = call(stdratio, a)
    return {"op": "ratio", "r": "ok" if k == "ok" and np.ndim(v) == 1 else "refused", "d": d,
            "k": [fx(q * q, 1000) if math.isfinite(q) else BIG for q in v] if k == "ok" else [], "kept": a.tolist() == d}


def signal(rng, n):
    dr = rng.choice([0.01, 0.05, 0.1, rng.uniform(0.02, 0.3)])
    r = dr * np.arange(1, n + 1) if rng.random() < 0.5 else rng.uniform(0.1, 5) + dr * np.arange(n)
    qn = math.pi / dr
    top = rng.choice([rng.uniform(0.2, 1), rng.uniform(0.6, 0.95)])
    qs = np.arange(0.5, max(n * top, 1)) * qn / n
    y = np.sin(np.outer(r, qs)) @ np.array([rng.choice([1, -1]) * rng.uniform(0.5, 1.5) for _ in qs])
    y = y * rng.choice([1, 0.01, 30]) / max(np.std(y), 1e-9)
    y = y + rng.choice([1e-3, 0.02]) * np.std(y) * np.array([rng.gauss(0, 1) for _ in r])
    if rng.random() < 0.3:  # positions as written to a file
        r = np.round(r, rng.choice([2, 3, 4]) if dr > 0.04 else 4)
    return r, y


def ratios(r, y):
    """by definition: resampled to twice the points, its sine spectrum, and the spreads of neighbouring windows"""
    n = len(r)
    dr = (r[-1] - r[0]) / (n - 1)
    t = np.linspace(0, n - 1, 2 * n)
    z = np.sinc(t[:, None] - np.arange(n)[None, :]) @ y
    j = np.arange(2 * n)
    s = np.array([-np.sum(z * np.sin(2 * np.pi * k * j / (2 * n))) for k in range(n)])
    return [np.std(s[:i]) / np.std(s[i:2 * i]) for i in range(2, n // 2 + 1)]


def through(rng, ck, r, y):
    how = rng.choice(["find", "find", "setdata", "automatic", "load"])
    if how == "find":
        q, dq = find_qmax(r, y)
        return how, q, dq
    p = PDFPeakExtraction()
    if rng.random() < 0.3:  # other data before
        x = 0.1 * np.arange(1, rng.choice([3, 30, 200]))
        p.setdata(x, np.sin(7 * x) + np.sin(3 * x))
    if how == "load":
        path = os.path.join(ck.tmp, "c31.gr")
        with open(path, "w") as f:
            f.write("qmax=3.5\n#### start data\n" + "".join("%r %r\n" % (float(a), float(b)) for a, b in zip(r, y)))
        p.loadpdf(path)
    else:
        p.setdata(r, y, *rng.choice([(), (np.zeros(len(r)), np.ones(len(r)))]))
    q = p.qmax_fromdata
    if how == "automatic" and q is not None:
        p.setvars(quiet=True, qmax=2.0)
        p.setvars(quiet=True, qmax="automatic")
        q = p.qmax
    if q is None:
        raise LookupError("none found")
    return how, q, None


def find(rng, ck):
    n = rng.choice([rng.randint(2, 12), rng.randint(8, 60), rng.randint(30, 250)])
    r, y = signal(rng, n)
    r0, y0 = r.copy(), y.copy()
    k, v = call(through, rng, ck, r, y)
    e = {"op": "find", "r": "ok" if k == "ok" else "refused", "n": n, "m": 0, "off": 0, "ratios": [], "tol": 0, "dq": True, "kept": np.array_equal(r, r0) and np.array_equal(y, y0), "_note": {"how": v[0] if k == "ok" else v}}
    if k == "ok":
        how, q, dq = v
        span = r[-1] - r[0]
        m = q * span / (2 * math.pi)
        e["m"] = int(math.ceil(m - 0.05))
        e["off"] = fx(e["m"] - m, 100)
        rs = ratios(r, y)
        e["ratios"] = [fx(w, 10 ** 7 / max(rs)) for w in rs]
        e["tol"] = 20
        if dq is not None:
            e["dq"] = bool(abs(dq - 2 * math.pi / span) < 2e-2 * dq + (2 * math.pi / span) / n)
    return e


def units(rng):
    n = rng.randint(8, 120)
    r, y = signal(rng, n)
    a, b = 2.0 ** rng.randint(-12, 12), rng.choice([1, -1]) * 2.0 ** rng.randint(-12, 12)
    k, v = call(lambda: [find_qmax(r, y), find_qmax(r * a, y), find_qmax(r, y * b)])
    near = lambda p, q: bool(abs(p - q) <= 1e-9 * abs(q))
    return {"op": "units", "r": "ok" if k == "ok" else "refused", "q": k == "ok" and near(v[1][0] * a, v[0][0]) and near(v[1][1] * a, v[0][1]),
            "i": k == "ok" and near(v[2][0], v[0][0]) and near(v[2][1], v[0][1])}


def refuse(rng):
    r, y = signal(rng, rng.randint(8, 40))
    c = rng.randint(1, 5)
    k, v = call(find_qmax, *rng.choice([(r[:-c], y), (r, y[:-c]), (r[c:], y)]))
    return {"op": "refuse", "r": "ok" if k == "ok" else "ValueError" if "ValueError" in v else v[0]}


def run(ck):
    ck.model_check("Cutoff", "CONSTANTS Vals = {0, 1, 3} N = %d\nSPECIFICATION Spec\nINVARIANT Windows Spreads Chosen\nCHECK_DEADLOCK FALSE\n" % ck.budget(8, 10), "windows over all short spectra")
    rng = ck.rng
    n = ck.budget(1, 8)
    ck.validate("CutoffTrace", [{"ev": [f(rng)]} for f, c in ((ratio, 1500), (lambda g: find(g, ck), 900), (units, 200), (refuse, 60)) for _ in range(c * n)], what="ratios and cut-offs found")
