import collections
import re
import numpy as np
from vlib import call, fx
from fakes import IPeak, IBase
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.modelcluster import ModelCovariance
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples

PK = {n: IPeak(n) for n in (1, 2, 3)}


class NoGradient(IPeak):
    """Knows its formats, but not their derivatives: such a part keeps its parameterization."""

    def _transform_derivativesraw(self, pars, in_format, out_format):
        raise self.trouble

    trouble = NotImplementedError()


class BadGradient(NoGradient):
    trouble = ValueError("no derivative")


class Sums(IPeak):
    """Format "sums" holds the running sums of the parameters, so that it mixes them."""

    def __init__(self):
        IPeak.__init__(self, 3)
        self.parformats.append("sums")

    def step(self, a, b):
        T = np.tril(np.ones((3, 3)))
        i = np.identity(3)
        return (T if b == "sums" else i) @ (np.linalg.inv(T) if a == "sums" else i)

    def _transform_parametersraw(self, pars, in_format, out_format):
        return self.step(in_format, out_format) @ np.array(pars, dtype=float)

    def _transform_derivativesraw(self, pars, in_format, out_format):
        return self.step(in_format, out_format)


SUMS = Sums()
STAY = [NoGradient(2), BadGradient(3)]
BL = {n: IBase(n) for n in (1, 2)}


def toint(v):
    v = float(v)
    return int(round(v)) if v == round(v) and abs(v) < 2e9 else 1999999999


def rmodel(rng):
    parts = []
    for _ in range(rng.randint(1, 3)):
        n = rng.randint(1, 3)
        f = PK[n]
        if rng.random() < 0.15:
            f = rng.choice(STAY)
            n = f.n
        parts.append(f.actualize([16 * rng.randint(-4, 4) for _ in range(n)], "internal", free=[rng.random() < 0.65 for _ in range(n)]))
    if rng.random() < 0.5:
        n = rng.randint(1, 2)
        parts.append(BL[n].actualize([16 * rng.randint(-4, 4) for _ in range(n)], "internal", free=[rng.random() < 0.65 for _ in range(n)]))
    return ModelParts(parts)


def mj(m):
    return [{"pars": [toint(v) for v in p.pars], "free": [bool(f) for f in p.free], "tr": isinstance(p.owner(), IPeak) and p.owner() not in STAY} for p in m]


def rmat(rng, n):
    sd = [16 * rng.randint(0 if rng.random() < 0.2 else 1, 4) for _ in range(n)]
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        m[i][i] = sd[i] ** 2
        for j in range(i):
            m[i][j] = m[j][i] = 256 * rng.randint(-3, 3)
    return m


def project(c, keys, u):
    """Everything readable, through pairs of (part, parameter)."""
    if c.cov is None:
        return {"def": False, "vals": [], "cov": []}
    return {"def": True, "vals": [toint(c.getvalue(k)) for k in keys], "cov": [[toint(c.getcovariance(a, b) / u[a] / u[b]) for b in keys] for a in keys]}


def keysof(m):
    return [(i, k) for i, p in enumerate(m) for k in range(len(p.pars))]


def outcome(kind, v):
    if kind == "ok":
        return "ok"
    return "undefined" if "SrMiseUndefinedCovarianceError" in v else "refused" if "ValueError" in v else "error " + v[0]


def trace(rng):
    c = ModelCovariance()
    evs, m, halv = [], None, 0
    keys = []
    u = collections.defaultdict(lambda: 1.0)  # unit of each parameter's uncertainty, a power of two
    for _ in range(rng.randint(3, 12)):
        op = rng.choice(["set", "set", "clear", "transform", "transform", "corr", "corr", "get", "cov", "cov", "warn", "mutate", "text", "gone", "select"])
        if op == "clear" and rng.random() < 0.5:
            continue
        ev = {"op": op}
        if op == "mutate":
            if m is not None:  # the model given later changes; the covariance keeps its own
                for p in m:
                    p.pars[:] = 7
                m = None
            continue
        if op == "set":
            m2 = rmodel(rng)
            nf, np_ = m2.npars(False), m2.npars(True)
            n = rng.choice([nf, nf, nf, np_, max(0, nf - 1), np_ + 1, rng.randint(nf, np_)])
            M = rmat(rng, n)
            bad = rng.random()
            if bad < 0.08 and n > 1:
                M = M[:-1]
            elif bad < 0.12 and n > 0:
                M = M[0]
            arr = np.array(M, dtype=float) if n else np.zeros((0, 0))
            ev["parts"] = mj(m2)
            ev["M"] = [[toint(v) for v in r] for r in M] if arr.ndim == 2 else [[1], [1, 1, 1]]
            u2 = collections.defaultdict(lambda: 1.0)
            if rng.random() < 0.4:
                u2.update({k: 2.0 ** rng.choice([0, 0, -30, -60, -100, 40]) for k in keysof(m2)})
            given = [k for k in keysof(m2) if n == np_ or m2[k[0]].free[k[1]]]
            if arr.ndim == 2 and arr.shape == (len(given), len(given)):
                arr = arr * np.outer([u2[k] for k in given], [u2[k] for k in given])
            kind, v = call(c.setcovariance, m2, arr.tolist() if arr.ndim == 2 and n and rng.random() < 0.2 else arr)
            if kind == "ok":
                u = u2
                m, keys, halv = m2, keysof(m2), 0
                parts = len(m2)
        elif op == "clear":
            kind, v = call(c.clear)
        elif op == "select":
            n = len(c.model) if c.model is not None else 0
            if n and rng.random() < 0.3:
                n = 1
            ps = rng.sample(range(n), rng.randint(1 if rng.random() < 0.8 else 0, n)) if n else []
            if rng.random() < 0.5:
                ps.sort()
            ev["ps"] = [i + 1 for i in ps]
            kind, v = call(c.selectparts, ps)
            if c.model is not None:
                keys = keysof(c.model)
                old, u = u, collections.defaultdict(lambda: 1.0)
                u.update({(i, k): old[ps[i], k] for i, k in keys if i < len(ps)})
        elif op == "transform":
            n = len(c.model) if c.model is not None else 1
            now = project(c, keys, u)
            if any(abs(v) > 25000 for r in now["cov"] + [now["vals"]] for v in r):  # TLC has 32 bits
                continue
            if halv >= 2:
                up = True
            else:
                up = rng.random() < 0.6
            halv += 0 if up else 1
            kw, sel = {}, list(range(n))
            r = rng.random()
            if r < 0.2:
                kw, sel = {"parts": "peaks"}, list(range(n - 1))
            elif r < 0.4:
                kw, sel = {"parts": "baseline"}, [n - 1]
            elif r < 0.6:
                sel = sorted(rng.sample(range(n), rng.randint(0, n)))
                kw = {"parts": sel}
            ev.update(sel=[i + 1 for i in sel], num=2 if up else 1, den=1 if up else 2)
            kind, v = call(c.transform, "internal" if up else "twice", "twice" if up else "internal", **kw)
        elif op == "gone":  # a parameter the model does not have, perhaps one of an earlier model
            k = rng.choice([(len({a for a, _ in keys}), 0), (0, 3), (2, 2), (3, 0), (1, 1), len(keys), len(keys) + 1, 9])
            if k in keys or isinstance(k, int) and k < len(keys):
                continue
            a = rng.choice(keys or [0])
            f, args = rng.choice([(c.get, (k,)), (c.getvalue, (k,)), (c.getuncertainty, (k,)), (c.getcovariance, (k, a)), (c.getcovariance, (a, k)),
                                  (c.getcorrelation, (k, a)), (c.getcorrelation, (a, k))])
            kind, v = call(f, *args)
            if kind == "err":
                v = ["ValueError"]
        elif op == "text":
            sd = [float(np.sqrt(max(0, c.getcovariance(k, k))) / u[k]) for k in keys] if c.cov is not None else []
            if any(abs(s - round(s)) > 1e-6 for s in sd):
                continue
            one = rng.choice(keys or [(0, 0)])
            i = keys.index(one) if keys else 0
            kind, v = call(lambda: [str(c), c.prettypar(one if rng.random() < 0.5 else i)])
            num = r"([-+.\de]+) \(([-+.\de]+)\)"
            read = lambda txt, at: [[toint(a), toint(round(float(b) / u[at(j)], 2))] for j, (a, b) in enumerate(re.findall(num, txt))]
            ev["lines"], ev["one"], ev["a"] = [], [], [one[0] + 1, one[1] + 1]
            if kind == "ok":
                ev["lines"] = [r for r in (read(t, lambda j: (i, j)) for i, t in enumerate(v[0].split("\n"))) if r]
                ev["one"] = (read(v[1], lambda j: one) or [[]])[0]
        else:
            ks = keys or [(0, 0)]
            a, b = rng.choice(ks), rng.choice(ks)
            ev["a"], ev["b"] = [a[0] + 1, a[1] + 1], [b[0] + 1, b[1] + 1]
            ia, ib = ks.index(a), ks.index(b)
            fa, fb = (a if rng.random() < 0.6 else ia), (b if rng.random() < 0.6 else ib)
            sd = None
            if c.cov is not None:
                sd = [toint(round(float(np.sqrt(max(0, c.getcovariance(k, k))) / u[k]))) for k in ks]
                if any(s * s != toint(c.getcovariance(k, k) / u[k] / u[k]) for s, k in zip(sd, ks)):
                    continue
            if op == "corr":
                kind, v = call(c.getcorrelation, fa, fb)
                ev["sa"], ev["sb"] = (sd[ia], sd[ib]) if sd else (0, 0)
                lim = 2 * 10 ** 9 // max(1, 2 * ev["sa"] * ev["sb"]) + 2
                ev["v"] = max(-lim, min(lim, fx(v, 10 ** 4))) if kind == "ok" else 0
            elif op == "get":
                kind, v = call(c.get, fa)
                if c.cov is None:
                    kind, v = call(c.getuncertainty, fa)
                    if kind == "err" and "KeyError" in v:  # no such parameter is known any more
                        v = ["SrMiseUndefinedCovarianceError"]
                    ev["v"] = ev["u"] = 0
                else:
                    ev["v"], ev["u"] = (toint(v[0]), toint(v[1] / u[a])) if kind == "ok" else (0, 0)
            elif op == "cov":
                kind, v = call(c.getcovariance, fa, fb)
                ev["v"] = toint(v / u[a] / u[b]) if kind == "ok" else 0
            else:
                ev["thr"] = rng.choice([1, 3, 5, 8])
                if sd and any(abs(10 * abs(toint(c.getcovariance(p, q) / u[p] / u[q])) - ev["thr"] * sp * sq) == 0 for p, sp in zip(ks, sd) for q, sq in zip(ks, sd)):
                    continue
                kind, v = call(c.correlationwarning, *([] if ev["thr"] == 8 and rng.random() < 0.5 else [ev["thr"] / 10]))
                ev["pairs"] = [[[i + 1 for i in p], [i + 1 for i in q]] for p, q, _ in v] if kind == "ok" else []
                ev["sd"] = sd or []
        ev["r"] = outcome(kind, v)
        ev.update(project(c, keys, u))
        evs.append(ev)
    return {"ev": evs}


def roundtrip(rng):
    base = rng.choice([Gaussian, GaussianOverR])(1.0)
    f = base if rng.random() < 0.7 else TerminationRipples(base, 20.0)
    formats = ["internal", "pwa", "mu_sigma_area"]
    a, b = rng.sample(formats, 2)
    if rng.random() < 0.4:
        f, (a, b) = SUMS, rng.sample(["internal", "sums"], 2)
    nparts = rng.randint(1, 2)
    parts = [f.actualize([rng.uniform(1, 9), rng.uniform(0.2, 0.9), rng.uniform(0.3, 5)], "internal" if f is SUMS else "pwa") for _ in range(nparts)]
    m = ModelParts(parts)
    n = 3 * nparts
    q = np.array([[rng.uniform(-0.3, 0.3) for _ in range(n)] for _ in range(n)])
    V = q @ q.T
    c = ModelCovariance()
    # parameters are filed in format a
    for p in m:
        p.pars = np.array(f.transform_parameters(p.pars, "internal", a))
    c.setcovariance(m, V)
    keys = keysof(m)
    val = lambda: [fx(c.getvalue(k), 10 ** 5) for k in keys]
    mat = lambda: [fx(c.getcovariance(x, y), 10 ** 5) for x in keys for y in keys]
    v0, m0 = val(), mat()
    G = np.identity(n)
    vx = []
    for i, p in enumerate(m):
        for k in range(3):
            h = 1e-6
            up, dn = p.pars.copy(), p.pars.copy()
            up[k] += h
            dn[k] -= h
            G[3 * i:3 * i + 3, 3 * i + k] = (np.array(f.transform_parameters(up, a, b)) - np.array(f.transform_parameters(dn, a, b))) / (2 * h)
        vx += [fx(v, 10 ** 5) for v in f.transform_parameters(p.pars, a, b)]
    kind, v = call(c.transform, a, b)
    vt, mt = val(), mat()
    mx = [fx(v, 10 ** 5) for v in (G @ V @ G.T).ravel()]
    call(c.transform, b, a)
    return {"ev": [{"op": "roundtrip", "v0": v0, "v1": val(), "m0": m0, "m1": mat(), "vt": vt, "mt": mt, "vx": vx, "mx": mx}], "note": [a, b]}


def fitcov(rng, tries=6):
    n = rng.randint(5, 8)
    xs = sorted(rng.sample(range(-4, 6), n))
    parts = [PK[2].actualize([rng.randint(-3, 3), rng.randint(-3, 3)], "internal", free=rng.choice([[True, True], [True, False], [False, True]])),
             BL[1].actualize([rng.randint(-3, 3)], "internal", free=[False])]
    m = ModelParts(parts)
    r, y = np.array(xs, float), np.array([rng.randint(-9, 9) for _ in xs], float)
    cov = ModelCovariance()
    kind, v = call(m.fit, r, y, np.ones(n), None, 0, cov, "internal")
    if kind == "err" and tries and "SrMiseFitError" in v:  # the search may give up, but not as a rule
        return fitcov(rng, tries - 1)
    assert kind == "ok", v
    keys = [(i, k) for i, k in keysof(m) if m[i].free[k]]
    jac = m.residual_jacobian(m.unpack_freepars(), r, y, np.ones(n))
    res = m.residual(m.unpack_freepars(), r, y, np.ones(n))
    A = [[toint(v) for v in row] for row in jac @ jac.T]
    S = 10 ** 5
    C = [[fx(cov.getcovariance(a, b), S) for b in keys] for a in keys]
    s = fx(float(res @ res) / (n - len(keys)), S)
    fz = all(cov.getcovariance(k, a) == 0 for k in keysof(m) for a in keysof(m) if k not in keys)
    big = max(abs(v) for row in A for v in row)
    return {"ev": [{"op": "fitcov", "A": A, "C": C, "s": s, "tol": big * len(keys) + s // 1000 + 5, "fixedzero": bool(fz)}]}


def run(ck):
    ck.model_check("Cov", "CONSTANTS Vals = {0, 256}\nSPECIFICATION Spec\nINVARIANT Shape Symmetric Back ReadsBack Selected\nCHECK_DEADLOCK FALSE\n",
                   "models of 2 and 3 parameters, all free flags, all shapes")
    n = ck.budget(3000, 20000)
    ck.validate("CovTrace", [t for t in (trace(ck.rng) for _ in range(n)) if t["ev"]] + [roundtrip(ck.rng) for _ in range(n // 5)]
                + [fitcov(ck.rng) for _ in range(n // 10)], what="recorded covariance operations")
