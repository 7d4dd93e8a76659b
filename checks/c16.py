import numpy as np
from vlib import call, fx
from fakes import IPeak, IBase
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC

FUN = {(k, n, w): (IPeak(n, w) if k == "p" else IBase(n, w)) for k in "pb" for n in (0, 1, 2, 3) for w in (1, 2, 3) if n or k == "b"}


def ints(a):
    return [int(round(float(v))) if np.isfinite(v) and abs(v) < 2e9 and float(v) == round(float(v)) else 1999999999 for v in np.asarray(a, dtype=float).ravel()]


def proj(m):
    return [{"w": int(p.owner().w), "pars": ints(p.pars), "free": [bool(f) for f in p.free]} for p in m]


def rpart(rng, kinds="pb"):
    k = rng.choice(kinds)
    n = rng.randint(1 if k == "p" else 0, 3)
    f = FUN[k, n, rng.randint(1, 3)]
    return f.actualize([rng.randint(-6, 6) for _ in range(n)], "internal", free=[rng.random() < 0.6 for _ in range(n)])


def rrange(rng, n):
    """An index range (slice or None) and the 1-based positions it selects."""
    r = rng.randrange(6)
    if r == 0:
        s = None
    elif r == 1:
        s = slice(None)
    elif r == 2:
        s = slice(rng.randint(0, n - 1), None)
    elif r == 3:
        s = slice(None, rng.randint(1, n))
    else:
        a = rng.randint(0, n - 1)
        s = slice(a, rng.randint(a + 1, n))
    idx = list(range(n)) if s is None else list(range(n))[s]
    return s, [i + 1 for i in idx]


def exact_trace(rng):
    n = rng.randint(1, 7)
    xs = sorted(rng.sample(range(-6, 9), n))
    ys = [rng.randint(-50, 50) for _ in range(n)]
    err = [rng.choice([1, 2, 4]) for _ in range(n)]
    m = [rpart(rng, "p" if rng.random() < 0.5 else "pb") for _ in range(rng.randint(1, 4))]
    bl = rpart(rng, "b")
    m = m + [bl]
    tr = {"m": proj(m), "xs": xs, "ys": ys, "err": err, "ev": []}
    r, y, e = np.array(xs, float), np.array(ys, float), np.array(err, float)
    model = ModelParts(m)
    for _ in range(rng.randint(2, 5)):
        s, idx = rrange(rng, n)
        op = rng.choice(["value", "jac", "foreign", "mvalue", "residual", "rjac", "cluster"])
        i = rng.randrange(len(m))
        ev = {"op": op, "rng": idx, "i": i + 1, "ok": True, "refused": False, "res": []}
        if op == "value":
            if len(xs) == 1 and rng.random() < 0.3:
                k, v = call(m[i].value, float(r[0]))
                ev["rng"] = [1]
            else:
                k, v = call(m[i].value, r, s)
            ev["ok"] = k == "ok"
            ev["res"] = ints(v) if k == "ok" else []
        elif op == "jac":
            k, v = call(m[i].jacobian, r, s)
            ev["ok"] = k == "ok"
            ev["res"] = [{"c": "none", "v": []} if c is None else {"c": "col", "v": ints(c)} for c in v] if k == "ok" else []
        elif op == "foreign":
            f = IPeak(2)
            k, v = call(getattr(f, rng.choice(["value", "jacobian"])), m[i], r, s)
            ev["ok"], ev["refused"] = k == "ok", k == "err" and "ValueError" in v
        elif op == "mvalue":
            k, v = call(model.value, r, s)
            ev["ok"] = k == "ok"
            ev["res"] = ints(v) if k == "ok" else []
        elif op in ("residual", "rjac"):
            ev["delta"] = rng.randint(0, 2) if op == "residual" else 0
            c = model.copy()
            free = c.unpack_freepars()
            if op == "rjac" and len(free) == 0:
                continue
            fn = c.residual if op == "residual" else c.residual_jacobian
            k, v = call(fn, free + ev["delta"], r, y, e, s)
            ev["ok"] = k == "ok"
            ev["m"] = proj(c)
            ev["res"] = [] if k != "ok" else ints(np.asarray(v) * 4) if op == "residual" else [ints(np.asarray(row) * 4) for row in v]
        else:
            if s is None or (s.start is None or s.stop is None):
                s = slice(0, n)
                ev["rng"] = list(range(1, n + 1))
            has = rng.random() < 0.7
            mc = ModelCluster(Peaks(m[:-1]), bl if has else None, r, y, e, s, AIC, [])
            before = [a.copy() for a in (r, y, e)]
            ev.update(hasbl=has, value=ints(mc.value()), valuebl=ints(mc.valuebl()), resid=ints(mc.residual()),
                      full=ints(mc.value(r)), size=int(mc.size), npars=int(mc.npars()), nfree=int(mc.npars(count_fixed=False)),
                      npk=int(mc.npars(count_baseline=False, count_fixed=False)))
            ev["same"] = all(np.array_equal(a, b) for a, b in zip(before, (r, y, e)))
        if "m" not in ev:
            ev["m"] = proj(m)
        tr["ev"].append(ev)
    return tr


def builtin_trace(rng):
    n = rng.randint(12, 40)
    lo = rng.uniform(0.8, 4)
    dr = rng.choice([0.02, 0.05, 0.1])
    kind = rng.choice(["g", "gr", "tr", "tg", "poly", "nano", "seq"])
    if kind in ("tr", "tg"):  # finer and coarser than the ripples
        dr = rng.choice([0.01, 0.02, 0.05, 0.12, 0.25])
        n = rng.randint(60, 100) if dr < 0.03 else rng.randint(20, 50)
    r = lo + dr * np.arange(n)
    c = lo + dr * n * rng.uniform(0.1, 0.9)
    tol = 2
    if kind in ("g", "gr", "tr", "tg"):
        base = Gaussian(0.8) if kind in ("g", "tg") else GaussianOverR(0.8)
        pwa = [c, rng.uniform(0.1, 0.5), rng.uniform(0.5, 4)]
        p = base.actualize(pwa, "pwa")
        if kind in ("tr", "tg"):
            qmax = rng.uniform(8, 25)
            f = TerminationRipples(base, qmax)
            p = f.actualize(pwa, "pwa")
            tol = None
    elif kind == "poly":
        d = rng.randint(0, 3)
        p = Polynomial(d).actualize([rng.uniform(-2, 2) for _ in range(d + 1)], "internal")
    elif kind == "nano":
        p = NanoSpherical().actualize([rng.choice([-1, 1]) * rng.uniform(0.2, 1), rng.uniform(5, 12)], "internal")
    else:
        xx = np.linspace(lo - 1, lo + dr * n + 1, 9)
        p = FromSequence(xx, [rng.uniform(-1, 1) for _ in xx]).actualize([], "internal")
    for k in range(len(p.free)):
        p.free[k] = rng.random() < 0.7
    if kind in ("g", "gr") and rng.random() < 0.3:
        p.pars[2] = -p.pars[2]
    a = rng.randint(0, n - 2)
    s = slice(a, rng.randint(a + 1, n))
    idx = [i + 1 for i in range(n)[s]]
    pars, free = p.pars.copy(), p.free.copy()
    full, part = p.value(r), p.value(r, s)
    jf, jp = p.jacobian(r), p.jacobian(r, s)
    at = sorted(rng.sample(range(n), 3))
    single = [p.value(float(r[i])) for i in at]
    same = np.array_equal(pars, p.pars) and np.array_equal(free, p.free)
    slope, dtol = [], []
    for k in range(len(pars)):
        h = 1e-5 * max(1, abs(pars[k]))
        q = p.copy()
        q.pars[k] = pars[k] + h
        up = q.value(r)
        q.pars[k] = pars[k] - h
        slope.append([fx(v, 10 ** 4) for v in (up - q.value(r)) / (2 * h)])
        m = max(1e-3, float(np.max(np.abs(up))))
        dtol.append(int(10 ** 4 * 1e-3 * m) + 5)
    # the residual's derivatives are those at the parameters given, whatever the part held before
    rjac, want = [], []
    if any(p.free):
        q = p.copy()
        q.pars[q.free] *= 1.05
        err = np.full(n, 0.5)
        k, v = call(ModelParts([p.copy()]).residual_jacobian, q.pars[q.free], r, 0 * r, err)
        rjac = [[fx(t, 10 ** 4) for t in row] for row in v] if k == "ok" else [[0]]
        want = [[fx(-t / 0.5, 10 ** 4) for t in row] for row in q.jacobian(r) if row is not None]
    jc = lambda j: [{"c": "none", "v": []} if c is None else {"c": "col", "v": [fx(v, 10 ** 4) for v in c]} for c in j]
    big = max(float(np.max(np.abs(full))), 1e-3)
    edge = 0.22 if dr < 0.03 else 0.6  # ripples of what lies beyond the extension are missed; see C28 for peaks within
    tol = 3 if tol is not None else int(edge * big * 10 ** 4) + 20
    if kind in ("tr", "tg"):
        for k, c in enumerate(jf):
            if c is not None:
                tol = max(tol, int(edge * np.max(np.abs(c)) * 10 ** 4))
    return {"m": [], "ev": [{"op": "builtin", "rng": idx, "part": [fx(v, 10 ** 4) for v in part], "full": [fx(v, 10 ** 4) for v in full],
            "jfull": jc(jf), "jpart": jc(jp), "free": [bool(f) for f in free], "single": [fx(v, 10 ** 4) for v in single],
            "at": [i + 1 for i in at], "rjac": rjac, "rwant": want, "slope": slope, "dtol": dtol, "tol": tol, "stol": tol if kind not in ("tr", "tg") else max(tol, int(0.3 * big * 10 ** 4)), "same": bool(same)}], "note": {"kind": kind, "pars": list(pars)}}


def run(ck):
    ck.model_check("Eval", "CONSTANTS V = {0, 3} X = {0, 1, 2}\nSPECIFICATION Spec\nINVARIANT Split JacIsDifference\nCHECK_DEADLOCK FALSE\n",
                   "two parts with two parameters, three points, all ranges and free flags")
    n = ck.budget(2500, 15000)
    ck.validate("EvalTrace", [exact_trace(ck.rng) for _ in range(n)] + [builtin_trace(ck.rng) for _ in range(n // 5)], what="recorded evaluations")
