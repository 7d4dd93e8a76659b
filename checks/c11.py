import math
import numpy as np
from vlib import call, fx, ranks
from fakes import IPeak, IBase
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.modelevaluators.base import ModelEvaluator
from diffpy.srmise.peaks.base import Peaks

PK = {n: IPeak(n) for n in (1, 2, 3)}
CRIT = {"AIC": AIC, "AICc": AICc}


def region(rng):
    n = rng.randint(1, 12)
    peaks = Peaks([PK[k].actualize([rng.randint(-2, 2) for _ in range(k)], "internal", free=[rng.random() < 0.6 for _ in range(k)])
                   for k in (rng.choice([1, 2, 2, 3]) for _ in range(rng.randint(0, 3)))])
    bl = IBase(1).actualize([rng.randint(-3, 3)], "internal", free=[rng.random() < 0.5]) if rng.random() < 0.5 else None
    x = np.array(sorted(rng.sample(range(-4, 12), n)), float)
    pad = rng.randint(0, 2)
    res = [rng.randint(-4, 4) if rng.random() < 0.8 else 0 for _ in range(n)]
    err2 = [rng.choice([1, 2, 2, 4]) for _ in range(n)]
    xx = np.concatenate([np.arange(-4 - pad, -4), x, [x[-1] + 1] * (pad > 0)])
    m = (peaks.value(x) if len(peaks) else 0 * x) + (bl.value(x) if bl is not None else 0)
    y = np.concatenate([[50.0] * pad, m + res, [50.0] * (pad > 0)])
    e = np.concatenate([[1.0] * pad, np.array(err2) / 2, [1.0] * (pad > 0)])
    crit = rng.choice(["AIC", "AICc"])
    mc = ModelCluster(peaks, bl, xx, y, e, slice(pad, pad + n), CRIT[crit], list(PK.values()))
    return mc, crit, {"crit": crit, "peaks": [[bool(f) for f in p.free] for p in peaks], "res": res, "err2": err2}


def state(mc):
    return [(list(p.pars), list(p.free)) for p in mc.model], None if mc.baseline is None else list(mc.baseline.pars), list(mc.y_data)


def event(rng):
    mc, crit, e = region(rng)
    s = state(mc)
    em = CRIT[crit]()
    e["given"] = -1
    if rng.random() < 0.2:  # chi-square already known
        e["given"] = rng.randint(0, 400)
        em.chisq = e["given"] / 4
    if rng.random() < 0.6:
        e.update(op="evaluate", all=rng.random() < 0.4, shift=rng.choice([0, 0, 0, 1, 3, -1, -2, -4]))
        if rng.random() < 0.5 and e["given"] < 0:
            k, v = call(mc.quality, None, count_fixed=e["all"], kshift=e["shift"])
            if k == "ok":
                em, v = v, v.stat
        else:
            k, v = call(em.evaluate, mc, count_fixed=e["all"], kshift=e["shift"])
        e["r"] = "ok" if k == "ok" else "refused" if "SrMiseModelEvaluatorError" in v else "error " + v[0]
        e.update(s=fx(em.stat, 1000) if k == "ok" else 0, chi=fx(em.chisq, 1000) if k == "ok" else 0, same=k != "ok" or float(v) == float(em.stat))
    else:
        if e["given"] < 0 and rng.random() < 0.5:
            call(em.evaluate, mc)
        k2 = rng.randint(0, 6)
        if rng.random() < 0.4:  # close to where the decision flips
            pen = penalty(crit, sum(sum(p) for p in e["peaks"]), k2, len(e["res"]))
            if pen is not None:
                e["given"] = max(0, int(round(4 * pen)) + rng.choice([-1, 0, 0, 1]))
                em.chisq = e["given"] / 4
                if abs(em.chisq - pen) < 1e-9 and crit == "AICc" and pen != int(pen):
                    return None  # decided by rounding
        e.update(op="grow", k2=k2)
        k, v = call(em.growth_justified, mc, k2)
        e.update(r="ok" if k == "ok" else "error " + v[0], j=bool(v) if k == "ok" else False)
    e["kept"] = s == state(mc)
    return {"ev": [e]}


def penalty(crit, k, k2, n):
    if crit == "AIC":
        return 2.0 * k2
    if n < k + k2 + 2:
        return None
    f = lambda q: 2 * q + 2.0 * q * (q + 1) / (n - q - 1)
    return f(k + k2) - f(k)


class Higher(ModelEvaluator):
    def __init__(self, method="h", higher=True):
        ModelEvaluator.__init__(self, method, higher)


def compare(rng):
    kind = rng.choice(["AIC", "AICc", "hi", "lo"])
    mk = {"AIC": AIC, "AICc": AICc, "hi": lambda: Higher("h", True), "lo": lambda: Higher("l", False)}[kind]
    a, b = mk(), mk()
    a.stat = rng.choice([rng.randint(-3, 3), rng.random(), 1e300])
    b.stat = rng.choice([a.stat, rng.randint(-3, 3), a.stat + 1e-12, rng.random()])
    ra, rb = ranks([a.stat, b.stat])
    c = []
    for op, f in (("lt", lambda: a < b), ("le", lambda: a <= b), ("gt", lambda: a > b), ("ge", lambda: a >= b), ("eq", lambda: a == b), ("ne", lambda: a != b)):
        k, v = call(f)
        if k != "ok":
            raise AssertionError("comparison %s failed: %s" % (op, v))
        c.append({"op": op, "v": bool(v)})
    bad = [mk(), {"AIC": AICc, "AICc": AIC, "hi": AIC, "lo": AIC}[kind]()]
    bad[1].stat = 0.5
    fs = [lambda x: x < a, lambda x: a < x, lambda x: x <= a, lambda x: x > a, lambda x: a >= x, lambda x: x == a, lambda x: x != a]
    refused = all(call(f, x)[0] == "err" for x in bad for f in fs)
    return {"ev": [{"op": "compare", "higher": kind == "hi", "a": ra, "b": rb, "c": c, "refused": refused}]}


def probs(rng):
    crit = rng.choice([AIC, AICc])
    st = [rng.choice([rng.uniform(0, 40), rng.uniform(-500, 500), 7.5]) for _ in range(rng.randint(1, 7))]
    ems = []
    for s in st:
        em = crit()
        em.stat = s
        ems.append(em)
    w, p = crit.akaikeweights(ems), crit.akaikeprobs(ems)
    lg = lambda v: fx(math.log(v) if v > 0 else -2e6, 1000)
    return {"ev": [{"op": "probs", "s": [fx(s, 1000) for s in st], "w": [lg(v) for v in w], "lp": [lg(v) for v in p], "sum": fx(float(np.sum(p)), 10 ** 6)}]}


def run(ck):
    ck.model_check("Quality", "CONSTANTS MaxN = %d MaxK = %d MaxChi = %d\nSPECIFICATION Spec\nINVARIANT Positive JustMono JustMeans\nPROPERTY Monotone\nCHECK_DEADLOCK FALSE\n"
                   % ((12, 6, 40) if ck.quick else (24, 10, 120)), "both criteria over all small numbers of points, parameters and misfits")
    n = ck.budget(15000, 60000)
    tr = [t for t in (event(ck.rng) for _ in range(n)) if t] + [compare(ck.rng) for _ in range(n // 4)] + [probs(ck.rng) for _ in range(n // 6)]
    ck.validate("QualityTrace", tr, what="recorded evaluations, comparisons and probabilities")
