"""Regions with integer peaks: joining, matching, editing, growing, reducing; scaling of real peaks."""
import math
import numpy as np
from vlib import call, fx
from fakes import Hat, Bump, BadHat, IBase
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.terminationripples import TerminationRipples


class World:
    """Peaks recognised by their function: one instance each."""

    def __init__(self, rng):
        self.rng = rng
        self.funcs = {}

    def peak(self, pos, kinds=("hat", "hat", "hat", "bump"), amps=None):
        rng = self.rng
        kind = rng.choice(kinds)
        f = {"hat": Hat, "bump": Bump, "bad": BadHat}[kind]()
        self.funcs[id(f)] = (len(self.funcs) + 1, kind, f)
        amp = rng.choice(amps or [1, 2, 3, 4, 5, 2, 3, 0, -1, -2])
        return f.actualize([pos, amp], "internal", free=[rng.random() < 0.6, rng.random() < 0.7], removable=rng.random() < 0.65)

    def pj(self, p, after=False):
        i, kind, _ = self.funcs.get(id(p.owner()), (0, "hat", None))
        d = {"id": i, "pos": int(p.pars[0]) if p.pars[0] == int(p.pars[0]) else 99999, "kind": kind, "pfree": bool(p.free[0]), "afree": bool(p.free[1]), "rem": bool(p.removable)}
        if after:
            d["a10k"] = fx(p.pars[1], 10 ** 4)
        else:
            d["amp"] = int(p.pars[1])
        return d

    def before(self, ps):
        return [self.pj(p) for p in ps]

    def after(self, ps):
        return [self.pj(p, True) for p in ps]


def snap(mc):
    return ([(id(p.owner()), list(p.pars), list(p.free), p.removable) for p in mc.model], mc.slice, mc.size, mc.never_fit, mc.last_fit_size,
            None if mc.baseline is None else list(mc.baseline.pars), list(map(id, mc.peak_funcs)), mc.y_data.tolist(), mc.r_data.tolist(), mc.y_error.tolist())


def outcome(k, v):
    return "ok" if k == "ok" else "refused" if "ValueError" in v else "error " + v[0]


def join(rng):
    w = World(rng)
    n = rng.randint(4, 10)
    r = np.arange(0, 2 * n, 2, dtype=float)
    y = np.array([2 * rng.randint(-3, 6) for _ in range(n)], float)
    err = np.ones(n)
    cut = sorted(rng.sample(range(0, n + 1), rng.choice([3, 3, 3, 3, 4])))
    (a0, a1), (b0, b1) = (cut[0], cut[1]), (cut[-2], cut[-1])
    border = 2 * a1 - 1

    def model(lo, hi):
        pos = [rng.choice([rng.randint(2 * lo, 2 * hi - 1), rng.randint(2 * lo - 4, 2 * hi + 4), border]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
        return Peaks([w.peak(p, ("hat",) * 6 + ("bump", "bad") if rng.random() < 0.1 else ("hat", "hat", "bump")) for p in sorted(pos)])

    share = rng.random() < 0.85
    diff = None if share else rng.choice(["r", "y", "err", "method", "bl", "noneb"])
    bl = IBase(2).actualize([rng.randint(-2, 2), rng.choice([0, 1, -1, 2])], "internal") if rng.random() < 0.5 else None
    bl2 = bl
    if bl is not None and rng.random() < 0.5:
        bl2 = bl.copy()
    if diff == "bl" or diff == "noneb":
        bl = IBase(2).actualize([1, 0], "internal")
        bl2 = None if diff == "noneb" else bl.owner().actualize(rng.choice([[2, 0], [1, 1]]), "internal")
    fa, fb, fc = Hat(), Hat(), Bump()
    m1 = ModelCluster(model(a0, a1), bl, r, y, err, slice(a0, a1), AIC, [fa, fc])
    m2 = ModelCluster(model(b0, b1), bl2, r.copy() if diff == "r" else r, y.copy() if diff == "y" else y, err.copy() if diff == "err" else err,
                      slice(b0, b1), AICc if diff == "method" else AIC, [fb, fc])
    args = [m1, m2]
    if rng.random() < 0.5:
        args.reverse()
    s = [snap(m) for m in args]
    e = {"op": "join", "same": share, "lo1": args[0].slice.start + 1, "hi1": args[0].slice.stop, "lo2": args[1].slice.start + 1, "hi2": args[1].slice.stop,
         "m1": w.before(args[0].model), "m2": w.before(args[1].model), "border": border, "by": 0}
    if a1 == b0:
        e["by"] = int((y[a1 - 1] + y[b0]) / 2 - (0 if bl is None else bl.pars[0] + bl.pars[1] * border))  # above the baseline
    k, v = call(ModelCluster.join_adjacent, *args)
    e["r"] = outcome(k, v)
    e["args"] = s == [snap(m) for m in args]
    if k == "ok":
        lo, hi, _ = v.slice.indices(n)
        e.update(m=w.after(v.model), lo=lo + 1, hi=hi, funcs=[id(f) for f in v.peak_funcs] in [[id(fa), id(fc), id(fb)], [id(fb), id(fc), id(fa)]])
        good = (list(v.r_cluster) == list(r[lo:hi]) and list(v.y_cluster) == list(y[lo:hi]) and list(v.error_cluster) == list(err[lo:hi]) and v.size == hi - lo
                and v.baseline == bl and v.error_method is AIC)
        if not good:
            e["lo"] = -1
        # the result is independent of the models joined
        for p in v.model:
            p.pars[1] += 1
        e["args"] = e["args"] and s == [snap(m) for m in args]
    else:
        e.update(m=[], lo=0, hi=0, funcs=True)
    return {"ev": [e], "note": diff}


def match(rng):
    w = World(rng)
    x = rng.randint(0, 8)
    kinds = ("hat", "hat", "bump") if rng.random() < 0.93 else ("hat", "bad")
    ps = Peaks([w.peak(rng.choice([x, x, rng.randint(x - 3, x + 3)]), kinds) for _ in range(rng.randint(0, 5))])
    y = rng.choice([rng.randint(-5, 20), int(sum(p.value(float(x)) for p in ps) if len(ps) else 0)])
    e = {"op": "match", "before": w.before(ps), "x": x, "y": y, "args": True}
    k, v = call(ps.match_at, float(x), float(y))
    if k != "ok" or v not in (True, False):
        raise AssertionError("match_at: %s %s" % (k, v))
    e.update(m=w.after(ps), r=bool(v))
    return {"ev": [e]}


def edit(rng):
    w = World(rng)
    n = rng.randint(2, 10)
    r, err = np.arange(n, dtype=float), np.ones(n)
    y = np.array([rng.randint(-3, 6) for _ in range(n)], float)
    mk = lambda k: [w.peak(rng.randint(-2, n + 2)) for _ in range(k)]
    shared = y.tolist()
    start = sorted(mk(rng.randint(0, 5)), key=lambda p: p["position"])
    bl = IBase(1).actualize([rng.randint(-2, 2)], "internal") if rng.random() < 0.5 else None
    mc = ModelCluster(Peaks(start), bl, r, y, err, slice(0, n), AIC, [Hat()])
    evs = []
    for _ in range(rng.randint(1, 6)):
        m = len(mc.model)
        e = {"op": "edit", "before": w.before(mc.model), "args": True, "given": True}
        before = snap(mc)
        kind = rng.choice(["replace", "replace", "delete", "add"])
        new, sl = [], slice(0, 0)
        if kind == "replace":
            a, b = sorted((rng.randint(0, m), rng.randint(0, m)))
            sl = rng.choice([slice(a, b), slice(a, None), slice(None, b), slice(-1, None), slice(a, b + 2), slice(0, 0)])
            new = mk(rng.randint(0, 2))
        elif kind == "delete":
            if m == 0:
                continue
            i = rng.randint(0, m - 1)
            sl = slice(i, i + 1)
        else:
            new = mk(rng.randint(0, 3))
        ext = kind == "add" and rng.random() < 0.5
        given = Peaks(new) if ext else rng.choice([list, Peaks])(new)
        e["ext"], e["ys0"] = ext, [int(v) for v in mc.y_data]
        e["del"] = [i + 1 for i in list(range(m))[sl]]
        e["new"] = w.before(new)
        if kind == "replace":
            k, v = call(mc.replacepeaks, given, sl)
        elif kind == "delete":
            k, v = call(mc.deletepeak, i)
        else:
            k, v = call(mc.addexternalpeaks, given) if ext else call(mc.replacepeaks, given)
        e["r"] = outcome(k, v)
        e["m"] = w.after(mc.model)
        e["given"] = len(given) == len(new) and all(a is b for a, b in zip(given, new))
        e["ys1"] = [int(v) for v in mc.y_data]
        now = snap(mc)
        e["args"] = before[1:7] == now[1:7] and before[8:] == now[8:] and list(mc.y_cluster) == list(mc.y_data) and y.tolist() == shared
        evs.append(e)
    return {"ev": evs}


def grow(rng):
    w = World(rng)
    n = rng.randint(1, 9)
    r = np.arange(n, dtype=float)
    high = rng.random()
    y = [rng.randint(-4, 3 if high < 0.3 else 1 if high < 0.7 else 0) for _ in range(n)]
    err = [rng.choice([0, 1, 1, 2]) for _ in range(n)]
    bl = IBase(rng.choice([1, 2])) if rng.random() < 0.6 else None
    if bl is not None:
        bl = bl.actualize([rng.randint(-1, 2)] + [rng.randint(-1, 1)] * (bl.n - 1), "internal")
    blv = [0] * n if bl is None else [int(v) for v in bl.pars[0] + (bl.pars[1] * r if len(bl.pars) > 1 else 0 * r)]
    lo = rng.randint(0, n - 1)
    hi = rng.randint(lo, n - 1)
    ya, ea = np.array(y, float), np.array(err, float)
    ps = Peaks([w.peak(p) for p in sorted(rng.randint(0, n) for _ in range(rng.randint(0, 2)))])
    mc = ModelCluster(ps, bl, r, ya, ea, slice(lo, hi + 1), AIC, [Hat()])
    evs = []
    for k in range(rng.randint(1, 5)):
        before = w.before(mc.model)
        s0 = snap(mc)
        if k > 0:
            lo, hi = rng.randint(max(0, lo - 2), lo), rng.randint(hi, min(n - 1, hi + 2))
            kk, v = call(mc.change_slice, slice(lo, hi + 1))
            if kk != "ok":
                raise AssertionError("change_slice: %s" % v)
        a, b, _ = mc.slice.indices(n)
        s1 = snap(mc)
        evs.append({"op": "grow", "args": True, "before": before, "m": w.after(mc.model), "lo": lo + 1, "hi": hi + 1, "lo1": a + 1, "hi1": b,
                    "y": y, "bl": blv, "err": err, "never": bool(mc.never_fit), "rest": s0[5:] == s1[5:] and s0[4] == s1[4],
                    "window": list(mc.r_cluster) == list(r[lo:hi + 1]) and list(mc.y_cluster) == y[lo:hi + 1] and list(mc.error_cluster) == err[lo:hi + 1] and mc.size == hi + 1 - lo})
        if rng.random() < 0.3:  # a copy of a region goes on in its place
            mc = mc.copy()
    return {"ev": evs}


def reduce(rng):
    w = World(rng)
    n = rng.randint(5, 9)
    r, err = np.arange(n, dtype=float), np.ones(n)
    ps = Peaks([w.peak(p, ("hat",), (1, 2, 3, 4, 5)) for p in sorted(rng.randint(0, n - 1) for _ in range(rng.randint(1, 2)))])
    for p in ps:
        p.free[0] = False
    b = rng.choice([0, 0, -3, -6, 4])
    bl = IBase(1).actualize([b], "internal", free=[rng.random() < 0.5]) if b else None
    x = rng.randint(0, n - 1)
    y = np.array([rng.randint(-3, 3) for _ in r]) + (ps.value(r) if rng.random() < 0.8 else 0 * r) + b
    mc = ModelCluster(ps, bl, r, y, err, slice(0, n), rng.choice([AIC, AICc]), [Hat()])
    h = int(ps.value(float(x))) + b
    v0 = rng.choice([h + 1, h - 1, h + 3, h, h - 2, max(1, h // 2), rng.randint(1, 8)])
    e = {"op": "reduce", "before": w.before(ps), "x": x, "y": v0, "b": b, "args": True}
    s = snap(mc)
    k, v = call(mc.reduce_to, float(x), float(v0))
    if k != "ok":
        raise AssertionError("reduce_to: %s" % v)
    s1 = snap(mc)
    e.update(r="none" if v is None else "kept", m=w.after(mc.model), rest=s[5:] == s1[5:] and s[1:4] == s1[1:4])
    return {"ev": [e]}


def truemax(f, pars, around=None):
    """Place and height of the maximum of a real peak, found on its curve."""
    r = np.linspace(max(1e-3, pars[0] - 3), pars[0] + 1.5, 4001) if around is None else np.linspace(around - 0.1, around + 0.1, 401)
    for _ in range(3):
        v = f.value(f.actualize(pars, "internal"), r)
        k = int(v.argmax())
        if k in (0, len(r) - 1):
            return None
        r = np.linspace(r[k - 1], r[k + 1], 41)
    return r[k], v[k]


def scale(rng):
    maxw = rng.choice([0.7, 1.5, 4.0])
    gor = rng.random() < 0.5
    f = (GaussianOverR if gor else Gaussian)(maxw)
    mu, fwhm, area = rng.uniform(1.5, 6), rng.uniform(0.1, min(maxw, 1.2)), rng.uniform(0.2, 5)
    free = [rng.random() < 0.8 for _ in range(3)]
    if rng.random() < 0.5:
        free = [True] * 3
    p = f.actualize([mu, fwhm, area], "pwa", free=free)
    pars = np.array(p.pars)
    m0 = truemax(f, pars)
    if m0 is None:
        return None
    off = rng.choice([0.0, 1.0, 1.0, 1.0, 1.0, 1.0]) * rng.choice([-1, 1]) * rng.uniform(0.2, 1.2) * fwhm
    x = m0[0] + off if off else (f.max(pars)[0])
    if x < 0.3:
        return None
    s = rng.choice([1.0, rng.uniform(0.3, 0.99), rng.uniform(0.3, 0.99), rng.uniform(1.01, 2), rng.uniform(1.01, 4), 1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-4, -2), 0.0, -0.5])
    val = lambda q: float(f.value(f.actualize(q, "internal"), float(x)))
    v0 = val(pars)
    # is there a peak of the same maximum with the wanted value, well within the allowed width?
    witness = False
    if off and s > 0 and s != 1 and all(free) and 1e-6 < v0 * s < 0.999 * m0[1]:
        if gor:  # same maximum R and height T: a(r) = T*R*exp(k) form; sigma is the only freedom left
            R, T = m0

            def curve(sg):
                mm = (sg ** 2 + R ** 2) / R
                return T * R / x * math.exp((R - mm) ** 2 / (2 * sg ** 2) - (x - mm) ** 2 / (2 * sg ** 2))
        else:
            R, T = m0
            curve = lambda sg: T * math.exp(-(x - R) ** 2 / (2 * sg ** 2))
        c2f = 2 * math.sqrt(2 * math.log(2))
        hi = 0.999 * maxw / c2f
        if gor:
            hi = min(hi, 0.95 * R)
        if curve(1e-3) < v0 * s < curve(hi):
            witness = True
    k, r = call(p.scale_at, x, s)
    if k != "ok":
        raise AssertionError("scale_at: %s" % r)
    same = np.array_equal(p.pars, pars)
    e = {"op": "scale", "args": True, "r": "scaled" if r else "refused", "same": bool(same), "witness": witness, "nfree": int(sum(free)), "pos": s > 0,
         "fixed": all(f_ or a == b for f_, a, b in zip(free, pars, p.pars))}
    m1 = truemax(f, np.array(p.pars), m0[0]) or (0, 0)
    big = max(m0[1], abs(v0 * s)) / 1000
    z = lambda v: fx(v / big, 10 ** 4)
    e.update(v1=z(val(p.pars)), want=z(v0 * s), p0=fx(m0[0], 10 ** 5), p1=fx(m1[0], 10 ** 5), t0=z(m0[1]), t1=z(m1[1]), tol=200)
    return {"ev": [e], "note": ["gor" if gor else "gaussian", maxw, mu, fwhm, area, x, s]}


MODEL = ("CONSTANTS Pos = {3, 5, 6} Amps = {%s} N = %d\nSPECIFICATION Spec\nINVARIANT SortedAlways RequiredKept OnlyTheirs CanJoin OwnSideKept MatchMeets\nCHECK_DEADLOCK FALSE\n")


def run(ck, kinds):
    ck.model_check("Regions", MODEL % (("1, 2" if ck.quick else "1, 2, 3"), 2), "joining and matching of up to three peaks around a border", workers=8)
    tr = []
    for fn, q, t in kinds:
        got = [x for x in (fn(ck.rng) for _ in range(ck.budget(q, t))) if x and x["ev"]]
        ck.notes["traces of " + fn.__name__] = len(got)
        tr += got
    ck.validate("RegionsTrace", tr, what="recorded operations on regions")
    return tr
