"""Regions whose model quality is a table over the set of peaks present."""
import contextlib
import numpy as np
from vlib import call, fx
from fakes import Bump, IBase
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.base import ModelEvaluator
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.gaussian import Gaussian


def table_evaluator(slots, amps, t, c, higher):
    """Reads which peaks are present off the residual, so it does not matter how a model is put together."""

    class Ev(ModelEvaluator):
        def __init__(self):
            ModelEvaluator.__init__(self, "table", higher)

        def evaluate(self, fit, count_fixed=False, kshift=0):
            res = fit.y_cluster - fit.value()
            mask = 0
            for i, (s, a) in enumerate(zip(slots, amps)):
                if abs(res[s]) < a / 2:
                    mask |= 1 << i
            k = int(fit.model.npars(count_fixed=count_fixed)) + kshift
            self.chisq = 0.0
            q = t[mask] - c * k
            self.stat = q if higher else -q
            return self.stat

        def growth_justified(self, fit, k_prime):
            return False

    return Ev


def table(rng, mode, nmax):
    n = rng.randint(1, nmax)
    npts = 2 * n + 8
    slots = rng.sample(range(npts), n)
    amps = [rng.randint(4, 9) for _ in range(n)]
    ranks = rng.choice([2, 3, 6, 20])
    t = [rng.randint(0, ranks) for _ in range(2 ** n)]
    if rng.random() < 0.3:  # a landscape with long improving paths
        w = [rng.randint(-3, 3) for _ in range(n)]
        t = [sum(w[i] for i in range(n) if m >> i & 1) + 30 for m in range(2 ** n)]
    c = rng.choice([0, 0, 1, 2])
    higher = rng.random() < 0.5
    funcs = [Bump(bad=rng.random() < 0.15) for _ in range(n)]
    free = [[False, rng.random() < 0.6] for _ in range(n)]
    rem = [rng.random() < 0.75 for _ in range(n)]
    bl = IBase(1).actualize([rng.randint(-3, 5)], "internal", free=[rng.random() < 0.5]) if rng.random() < 0.5 else None
    r = np.arange(npts, dtype=float)
    y = np.zeros(npts) + (bl.pars[0] if bl is not None else 0)
    for s, a in zip(slots, amps):
        y[s] += a
    err = np.ones(npts)
    ev = table_evaluator(slots, amps, t, c, higher)
    mk = lambda i: funcs[i].actualize([slots[i], amps[i] + rng.choice([-1, 0, 0, 1])], "internal", free=free[i], removable=rem[i])
    ids = list(range(n))
    if mode == "prune":
        before = ids if rng.random() < 0.7 else rng.sample(ids, rng.randint(0, n))
        offered = []
    else:
        before = rng.sample(ids, rng.randint(0, n - 1))
        offered = [i for i in ids if i not in before]
    before = sorted(before, key=lambda i: slots[i])
    pad = rng.random() < 0.3
    sl = None
    data = (r, y, err)
    if pad:  # the region is a part of a larger data set
        data = (np.arange(-3, npts + 3, dtype=float), np.concatenate([[5.0] * 3, y, [5.0] * 3]), np.ones(npts + 6))
        sl = slice(3, 3 + npts)
    y0 = data[1].copy()
    mc = ModelCluster(Peaks([mk(i) for i in before]), bl, *data, sl, ev, list(funcs))
    snap = {i: (p.pars[0], list(p.free), p.removable, p.pars[1]) for i, p in zip(before, mc.model)}
    bl0 = None if bl is None else (list(bl.pars), list(bl.free))
    e = {"op": mode, "n": n, "t": t, "c": c, "nfree": [int(sum(f)) for f in free], "rem": rem, "before": [i + 1 for i in before],
         "offered": [i + 1 for i in offered], "source": True}
    if mode == "prune":
        k, v = call(mc.prune)
    else:
        off = rng.sample(offered, len(offered))
        src = ModelCluster(Peaks([mk(i) for i in off]), bl, *data, sl, ev, list(funcs))
        for i, p in zip(off, src.model):
            snap[i] = (p.pars[0], list(p.free), p.removable, p.pars[1])
        k, v = call(mc.augment, src)
        e["source"] = len(src.model) == len(off) and all(p.owner() is funcs[i] and p.pars[1] == snap[i][3] and p.pars[0] == snap[i][0] for i, p in zip(off, src.model))
    if k != "ok":
        raise AssertionError("%s failed: %s" % (mode, v))
    after = [funcs.index(p.owner()) for p in mc.model]
    e["after"] = [i + 1 for i in after]
    e["kept"] = all(i in snap and p.pars[0] == snap[i][0] and list(p.free) == snap[i][1] and p.removable == snap[i][2]
                    and (p.free[1] or p.pars[1] == snap[i][3]) for i, p in zip(after, mc.model))
    e["sorted"] = all(a["position"] <= b["position"] for a, b in zip(mc.model, mc.model[1:]))
    e["rest"] = ((mc.baseline is None) == (bl is None) and (bl is None or (list(mc.baseline.pars), list(mc.baseline.free)) == bl0)
                 and np.array_equal(mc.y_data, y0) and mc.r_data is data[0] and mc.size == npts)
    st = mc.quality().stat
    e["qual"] = int(st if higher else -st)
    return {"ev": [e]}


@contextlib.contextmanager
def watched_fits(offered):
    """Which offered peaks, as they were offered, are in the model at the start of each fit."""
    seen, fit = [], ModelCluster.fit

    def watched(self, *a, **k):
        have = [list(p.pars) for p in self.model]
        seen.append([j + 1 for j, p in enumerate(offered) if p in have])
        return fit(self, *a, **k)

    ModelCluster.fit = watched
    try:
        yield seen
    finally:
        ModelCluster.fit = fit


def real(rng, mode):
    """Gaussian peaks, noisy data and the built-in criteria."""
    pf = rng.choice([GaussianOverR, Gaussian])(0.8)
    nt = rng.randint(1, 4)
    r = np.linspace(1, 6, rng.choice([60, 80]))
    pos = sorted(rng.uniform(1.4, 5.6) for _ in range(nt))
    truth = Peaks([pf.actualize([p, rng.uniform(0.15, 0.5), rng.uniform(0.5, 3)], "pwa") for p in pos])
    err = rng.choice([0.05, 0.2, 0.5])
    nrng = np.random.RandomState(rng.randint(0, 10 ** 6))
    y = truth.value(r) + nrng.normal(0, err, len(r))
    crit = rng.choice([AIC, AICc])

    def mk(p):
        fixed = rng.random() < 0.3
        return pf.actualize([p, rng.uniform(0.15, 0.5), rng.uniform(0.3, 3)], "pwa", free=[not fixed, True, True], removable=rng.random() < 0.7)

    extra = [rng.uniform(1.4, 5.6) for _ in range(rng.randint(0, 4 - nt))]
    every = sorted(pos + extra)
    if mode == "realprune":
        start, off = every, []
    else:
        start = [p for p in every if rng.random() < 0.4]
        off = [p for p in every if p not in start]
    mc = ModelCluster(Peaks([mk(p) for p in start]), None, r, y, np.ones(len(r)) * err, None, crit, [pf])
    if mode == "realprune" and len(mc.model):
        mc.fit()
    y0 = y.copy()
    # a required peak is recognised by its fixed parameters and their values
    required = [(tuple(p.pars[~p.free]), tuple(p.free)) for p in mc.model if not p.removable]
    e = {"op": mode, "before": [i for i in range(len(mc.model))], "source": True, "tries": []}
    q0 = mc.quality().stat
    if mode == "realprune":
        k, v = call(mc.prune, timeout=60)
    else:
        src = ModelCluster(Peaks([mk(p) for p in off]), None, r, y, np.ones(len(r)) * err, None, crit, [pf])
        sp = [list(p.pars) for p in src.model]
        with watched_fits(sp) as e["tries"]:
            k, v = call(mc.augment, src, timeout=60)
        e["source"] = sp == [list(p.pars) for p in src.model]
    if k != "ok":
        raise AssertionError("%s failed: %s" % (mode, v))
    q1 = mc.quality().stat
    have = [(tuple(p.pars[~p.free]), tuple(p.free)) for p in mc.model if not p.removable]
    e["required"] = sorted(required) == sorted(have) if mode == "realprune" else all(required.count(x) <= have.count(x) for x in required)
    e["after"] = list(range(len(mc.model)))
    e["kept"] = True
    e["rest"] = np.array_equal(mc.y_data, y0) and mc.baseline is None
    e["sorted"] = all(a["position"] <= b["position"] for a, b in zip(mc.model, mc.model[1:]))
    e["q0"], e["q1"] = -fx(q0, 1000), -fx(q1, 1000) + 1
    return {"ev": [e]}


def run(ck, mode):
    ck.model_check("Select", "CONSTANTS Peaks = {1, 2, 3} Ranks = {0, 1%s}\nSPECIFICATION Spec\nINVARIANT RequiredKept NeverWorse OnlyKnown Monotone EndsAgree EndIsOptimal\nPROPERTY Improves\nCHECK_DEADLOCK FALSE\n"
                   % ("" if ck.quick else ", 2"), "both searches over every quality table of three peaks", workers=8)
    tr = [table(ck.rng, mode, 3) for _ in range(ck.budget(3500, 14000))]
    tr += [table(ck.rng, mode, 7) for _ in range(ck.budget(900, 4000))]
    tr += [real(ck.rng, "real" + mode) for _ in range(ck.budget(400, 1500))]
    ck.notes["changed models"] = sum(t["ev"][0]["before"] != t["ev"][0]["after"] for t in tr)
    ck.validate("SelectTrace", tr, what="%s over table-driven and real qualities" % mode)
