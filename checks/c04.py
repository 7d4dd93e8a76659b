import itertools
import numpy as np
from scipy.optimize import leastsq
from vlib import call, fx, Intern
from fakes import Poly, Hat, IBase
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.base import ModelEvaluator
from diffpy.srmise.peaks.base import Peaks

S = 10 ** 4


def evaluator(script):
    """An evaluator which rates the starting model q0 and any other q1."""

    class Ev(ModelEvaluator):
        def __init__(self):
            ModelEvaluator.__init__(self, "scripted", script["higher"])

        def evaluate(self, fit, count_fixed=False, kshift=0):
            self.chisq = 0.0
            self.stat = script["q0"] if keyof(fit) == script["start"] else script["q1"]
            return self.stat

        def growth_justified(self, fit, k_prime):
            return script["grow"]

    return Ev


def keyof(mc):
    k = sorted((id(p.owner()), tuple(p.pars)) for p in mc.model)
    return (tuple(k), None if mc.baseline is None else tuple(mc.baseline.pars))


class Driver:
    def __init__(self, rng):
        self.rng = rng
        self.tok = Intern()
        self.own = {}
        n = rng.randint(5, 9)
        x = [0]
        while len(x) < n:
            x.append(x[-1] + rng.choice([1, 1, 1, 2]))
        x = [v for v in x if v <= 10]
        n = self.n = len(x)
        self.x = x
        style = rng.random()
        self.y = [rng.randint(-6, 12) if style < 0.8 else rng.randint(-9, 1) for _ in x]
        far = rng.choice([2, 2, 3, 4])
        self.e = [rng.choice([1, far]) for _ in x]
        self.bl = None
        if rng.random() < 0.6:
            k = rng.choice([1, 1, 2])
            self.bl = IBase(k).actualize([rng.randint(-3, 3) for _ in range(k)], "internal", free=[rng.random() < 0.6 for _ in range(k)])
        peaks = [self.peak() for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3]))]
        self.est = Poly(rng.choice([1, 2]))
        self.funcs = [self.est] + [p.owner() for p in peaks]
        self.lo = self.hi = 0
        lo = rng.randint(0, n - 1)
        hi = rng.randint(lo, n - 1)
        self.script = {"higher": rng.random() < 0.5, "q0": 0, "q1": 0, "start": None, "grow": False}
        self.r = np.array(x, float)
        self.yy = np.array(self.y, float)
        self.ee = np.array(self.e, float)
        self.mc = ModelCluster(Peaks(sorted(peaks, key=lambda p: p["position"])), self.bl, self.r, self.yy, self.ee, slice(lo, hi + 1), evaluator(self.script), self.funcs)

    def peak(self):
        rng = self.rng
        if rng.random() < 0.5:
            f = Poly(rng.choice([1, 2]))
            return f.actualize([rng.randint(-4, 12)] + [rng.randint(-3, 3)] * (f.n - 1), "internal", free=[rng.random() < 0.7 for _ in range(f.n)], removable=rng.random() < 0.6)
        f = Hat()
        return f.actualize([rng.randint(-6, 16), rng.randint(-4, 6)], "internal", free=[False, rng.random() < 0.6], removable=rng.random() < 0.6)

    def pj(self, p):
        own = self.own.setdefault(id(p.owner()), (len(self.own) + 1, p.owner()))[0]
        return {"own": own, "kind": "hat" if isinstance(p.owner(), Hat) else "poly", "ids": [self.tok(float(v)) for v in p.pars],
                "v": [fx(v, S) for v in p.pars], "free": [bool(f) for f in p.free], "rem": bool(p.removable)}

    def proj(self):
        mc = self.mc
        lo, hi, _ = mc.slice.indices(self.n)
        ok = list(mc.r_cluster) == self.x[lo:hi] and list(mc.y_cluster) == self.y[lo:hi] and list(mc.error_cluster) == self.e[lo:hi] and mc.size == hi - lo
        return {"model": [self.pj(p) for p in mc.model], "bl": [] if mc.baseline is None else [self.pj(mc.baseline)],
                "lo": lo + 1, "hi": hi if ok else -1, "never": bool(mc.never_fit), "last": int(mc.last_fit_size)}

    # -- what the optimiser does on this problem, computed apart from the code under test
    def twin(self, parts, fitbl, ntrials):
        sl = self.mc.slice
        r, y, e = self.r[sl], self.yy[sl].copy(), self.ee[sl]
        parts = list(parts)
        if self.mc.baseline is not None:
            if fitbl:
                parts.append(self.mc.baseline)
            else:
                y = y - self.basis(self.mc.baseline, r).T @ self.mc.baseline.pars
        cols, p0 = [], []
        for p in parts:
            b = self.basis(p, r)
            for k in range(len(p.pars)):
                if p.free[k]:
                    cols.append(b[k])
                    p0.append(float(p.pars[k]))
                else:
                    y = y - b[k] * p.pars[k] if not (isinstance(p.owner(), Hat) and k == 0) else y
        if not p0:
            return "done", None, True
        if len(p0) >= len(r):
            return "failed", None, True
        A = np.array(cols)
        raising = [p.owner() for p in parts if isinstance(p.owner(), Poly) and p.owner().jac == "raise"]
        missing = any(isinstance(p.owner(), Poly) and p.owner().jac == "missing" for p in parts)
        after = min([f.after for f in raising] or [10 ** 9])
        calls = [0]

        def dfun(q):
            calls[0] += 1
            return -A / e

        f = lambda q: (y - A.T @ q) / e
        g = A @ ((y - A.T @ np.array(p0)) / e ** 2)
        moves = bool(np.abs(g).max() > 1e-5)
        q0 = np.array(p0)
        if np.any((np.abs(q0) < 1e-6) & (q0 != 0)):  # MINPACK's first step would be of that size
            return None, None, moves
        if raising and after == 0:
            return (None if missing else "failed"), None, moves
        if missing:
            out = leastsq(f, q0, col_deriv=True, full_output=True, maxfev=ntrials)
        else:
            out = leastsq(f, q0, Dfun=dfun, col_deriv=True, full_output=True, maxfev=ntrials)
        done = out[4] in (1, 2, 3, 4)
        # how many derivatives are taken before convergence may depend on rounding
        if raising and (missing or abs(calls[0] - after) < 2):
            return None, None, moves
        if np.any(np.abs(out[0]) < 1e-9):
            return None, None, moves
        if ntrials and (done or np.sum(out[2]["fvec"] ** 2) < 1e-6):
            return None, None, moves
        return ("done" if done and not (raising and calls[0] > after) else "failed"), out[0], moves

    def basis(self, p, r):
        if isinstance(p.owner(), Hat):
            return np.array([0 * r, np.maximum(0.0, 3 - np.abs(r - p.pars[0]))])
        return np.array([r ** k for k in range(len(p.pars))])

    def attempt(self, op, force=None):
        rng, mc, sc = self.rng, self.mc, self.script
        force = force or {}
        ev = {"op": op, "estimate": True, "minpoints": 0, "thr": 4}
        pick = lambda k, v: force[k] if k in force else v
        kind = pick("est", rng.choice(["found", "found", "none", "refused"]))
        est = {"none": None, "refused": "refused"}.get(kind) or ([rng.randint(0, 10), rng.randint(-2, 2)][:self.est.n] if kind == "found" else None)
        self.est.script(None, 0, est)
        epeak = self.est.actualize(est, "internal") if kind == "found" else None
        justify = pick("justify", rng.random() < 0.5)
        fitbl = pick("fitbl", rng.random() < 0.4) and op == "fit"
        ntrials = 1 if op == "fit" and pick("maxed", rng.random() < 0.1) else 0
        ev["estimate"] = pick("estimate", rng.random() < 0.8) if op == "fit" else True
        start = list(mc.model)
        if not start and kind == "found" and ev["estimate"]:
            start = [epeak]
        fail = pick("jac", rng.choice([None, None, None, None, "raise", "missing"]))
        for p in start:
            if isinstance(p.owner(), Poly):
                p.owner().script(None, 0, est if p.owner() is self.est else None)
        if fail:
            polys = [p for p in start if isinstance(p.owner(), Poly)]
            if polys:
                f = rng.choice(polys).owner()
                f.script(fail, rng.choice([0, 0, 0, 5]) if fail == "raise" else 0, est if f is self.est else None)
        solver, sol, moves = self.twin(start, fitbl, ntrials)
        if solver is None or (sol is not None and np.abs(sol).max() > 150):
            return None
        if not moves:
            return None
        nofree = sol is None and solver == "done"
        lo, hi, _ = mc.slice.indices(self.n)
        unseen = [p for p in start if isinstance(p.owner(), Hat) and p.removable and (p.pars[0] < self.x[lo] or p.pars[0] >= self.x[hi - 1])
                  and np.max(self.basis(p, self.r[lo:hi])[1] * p.pars[1] - self.ee[lo:hi]) < 0]
        if nofree and any(isinstance(p.owner(), Poly) and p.removable for p in start):
            return None
        c = pick("cmp", rng.choice(["worse", "equal", "better", "better"]))
        sc["q0"] = 10
        sc["q1"] = {"worse": 5, "equal": 10, "better": 20}[c] if sc["higher"] else {"worse": 20, "equal": 10, "better": 5}[c]
        key = sorted((id(p.owner()), tuple(p.pars)) for p in start)
        sc["start"] = (tuple(key), None if mc.baseline is None else tuple(mc.baseline.pars))
        sc["grow"] = pick("grow", rng.random() < 0.5)
        ev.update(est=kind, epeak=[self.pj(epeak)] if epeak is not None else [self.pj(Hat().actualize([0, 0], "internal"))], justify=justify, fitbl=bool(fitbl and mc.baseline is not None),
                  solver=solver, cmp="equal" if nofree and not unseen else c, grow=sc["grow"])
        if op == "fit":
            kw = {}
            if fitbl:
                kw["fitbaseline"] = True
            k, v = call(mc.fit, justify=justify, ntrials=ntrials, estimate=ev["estimate"], **kw)
        elif op == "contingent":
            ev["minpoints"] = pick("minpoints", rng.randint(1, 6))
            ev["thr"] = pick("thr", rng.choice([4, 5, 6, 8, 12]))
            k, v = call(mc.contingent_fit, ev["minpoints"], ev["thr"] / 4)
        else:
            xx = float(rng.choice(self.x)) + 0.5
            k, v = call(mc.reduce_to, xx, float(rng.randint(0, 8)))
        if k != "ok":
            raise AssertionError("unexpected error of %s: %s" % (op, v))
        ev["ret"] = v is not None
        ev["qual"] = int(v.stat) if v is not None else 0
        ev["qpost"] = int(mc.quality().stat) if v is not None else 0
        ev.update(self.proj())
        return ev

    def edit(self):
        """The owner of the region changes free parameters by hand."""
        for p in self.mc.model:
            for k in range(len(p.pars)):
                if p.free[k]:
                    p.pars[k] = self.rng.randint(-5, 9)
        self.mc.model.sort(key="position")
        return dict(self.blank("edit"), **self.proj())

    def blank(self, op):
        return {"op": op, "estimate": True, "est": "none", "epeak": [self.pj(Hat().actualize([0, 0], "internal"))], "justify": False, "grow": False, "solver": "done", "cmp": "equal",
                "fitbl": False, "minpoints": 0, "thr": 4, "ret": False, "qual": 0, "qpost": 0}

    def grow(self):
        rng = self.rng
        lo, hi, _ = self.mc.slice.indices(self.n)
        lo2 = max(0, lo - rng.choice([0, 0, 1, 2]))
        hi2 = min(self.n, hi + rng.choice([0, 1, 1, 2]))
        if rng.random() < 0.25 and hi - lo > 3:  # or less
            lo2, hi2 = lo + rng.choice([0, 1]), hi - rng.choice([0, 1])
        self.mc.change_slice(slice(lo2, hi2))
        ev = self.blank("grow")
        ev.update(self.proj())
        return ev


def trace(rng, force=None):
    d = Driver(rng)
    p = d.proj()
    t = {"x": d.x, "y": d.y, "e": d.e, "model": p["model"], "bl": p["bl"], "lo": p["lo"], "hi": p["hi"], "ev": []}
    for _ in range(rng.randint(2, 7)):
        op = rng.choice(["fit", "fit", "fit", "contingent", "contingent", "grow", "grow", "reduce"])
        if op == "fit" and t["ev"] and rng.random() < 0.8:
            t["ev"].append(d.edit())
        ev = d.grow() if op == "grow" else d.attempt(op, force)
        if ev is None:
            break
        t["ev"].append(ev)
        if any(abs(v) > 150 * S for q in ev["model"] + ev["bl"] for v in q["v"]):
            break
    return t


def run(ck):
    n = ck.budget(3, 4)
    ck.model_check("Fit", "CONSTANTS NPts = %d MaxV = 2\nSPECIFICATION Spec\nINVARIANT NeverWorse NeverFit Untouched FixedKept LastBounded\nPROPERTY NoneMeansSame KeptNoWorse\nCHECK_DEADLOCK FALSE\n" % n,
                   "all outcomes of estimation, optimiser, quality and justification on regions of up to %d points" % n)
    traces = []
    # every combination of outcomes, several times over random regions
    combos = list(itertools.product(["found", "none", "refused"], [False, True], [None, "raise", "missing"], ["worse", "equal", "better"], [False, True], [False, True], [False, True]))
    for rep in range(ck.budget(4, 25)):
        for est, estimate, jac, cmp_, justify, grow, fitbl in combos:
            f = {"est": est, "estimate": estimate, "jac": jac, "cmp": cmp_, "justify": justify, "grow": grow, "fitbl": fitbl}
            t = trace(ck.rng, f)
            if t["ev"]:
                traces.append(t)
    for _ in range(ck.budget(3000, 25000)):
        t = trace(ck.rng)
        if t["ev"]:
            traces.append(t)
    evs = [e for t in traces for e in t["ev"]]
    ck.notes["kept"] = sum(e["ret"] for e in evs)
    ck.notes["not kept"] = sum(not e["ret"] for e in evs)
    ck.notes["optimiser failures"] = sum(e["solver"] == "failed" for e in evs)
    ck.validate("FitTrace", traces, what="histories of growth, fits and contingent fits")
