import contextlib, copy, io, logging, math, multiprocessing, random, traceback
import numpy as np
import scipy.optimize

REAL = scipy.optimize.leastsq


class Diverged(BaseException):
    """The run does something else than the one it is compared with."""


class Replay:
    """Stands in for the optimiser.  In the run on the problem as given it optimises, and keeps what came out; in a
    run on the same problem told otherwise it gives the same optimum, told otherwise, so that what is compared are
    the starts of all fits and all that is decided in between, undisturbed by how far an optimisation converges."""

    def __init__(self):
        self.kept, self.k, self.mode, self.fits, self.parts, self.s, self.c, self.worse = [], None, None, [], [], 0, 0, False

    def begin(self, mode, s=0, c=0):
        self.k = None if mode == "first" else 0
        self.mode, self.fits, self.parts, self.s, self.c = mode, [], [], s, c
        if mode == "first":
            self.kept = []

    def __call__(self, func, x0, *a, **k):
        if self.mode is None:
            return REAL(func, x0, *a, **k)
        x0 = np.array(x0, float)
        size = len(k["args"][0][k["args"][3]])
        parts = list(self.parts[-1]) if self.parts else []
        self.fits.append({"n": size, "start": [row(p) for p in parts if any(p.free)]})
        if self.k is None:
            try:
                f = REAL(func, x0, *a, **k)
                if self.worse:  # a fit from which nothing was gained
                    f = (x0 * 1.5,) + f[1:4] + (1,)
            except Exception as e:
                f = e
            self.kept.append((x0.copy(), size, copy.deepcopy(f)))
            if isinstance(f, Exception):
                raise f
            return f
        i, self.k = self.k, self.k + 1
        if i >= len(self.kept):
            raise Diverged
        b0, n, f = self.kept[i]
        if n != size or len(b0) != len(x0):
            raise Diverged
        u, by = np.ones(len(x0)), np.zeros(len(x0))
        if self.mode == "units":
            u = np.array([told(p, self.la, self.lb)[j] for p in parts for j in range(len(p.pars)) if p.free[j]])
            if len(u) != len(x0) or not np.all(np.abs(x0 - b0 * u) <= 1e-7 * np.abs(b0 * u)):
                raise Diverged
        elif self.mode == "exact":
            if not np.array_equal(x0, b0):
                raise Diverged
        else:
            by = np.array([moved(p, self.s, self.c)[j] for p in parts for j in range(len(p.pars)) if p.free[j]])
            if len(by) != len(x0) or not np.all(np.abs(x0 - by - b0) <= 1e-6 + 1e-6 * np.abs(b0)):
                raise Diverged
        if isinstance(f, Exception):
            raise f
        cov = None if f[1] is None else f[1] * np.outer(u, u)
        return (f[0] * u + by, cov, dict(f[2], fvec=np.array(f[2]["fvec"]))) + tuple(f[3:])


STAND = Replay()
scipy.optimize.leastsq = STAND
import extractdrv as X  # noqa: E402
from vlib import call, fx, Intern, CaseTimeout  # noqa: E402
from diffpy.srmise import modelparts  # noqa: E402
from diffpy.srmise.basefunction import BaseFunction  # noqa: E402
from diffpy.srmise.baselines.polynomial import Polynomial  # noqa: E402
from diffpy.srmise.modelcluster import ModelCluster, ModelCovariance  # noqa: E402
from diffpy.srmise.modelevaluators.base import ModelEvaluator  # noqa: E402
from diffpy.srmise.peaks.base import Peaks  # noqa: E402
from diffpy.srmise.peaks.gaussian import Gaussian  # noqa: E402
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR  # noqa: E402
from diffpy.srmise.peaks.terminationripples import TerminationRipples  # noqa: E402

if getattr(modelparts, "leastsq", STAND) is REAL:
    modelparts.leastsq = STAND
FIT = modelparts.ModelParts.fit


def fit(self, *a, **k):
    STAND.parts.append(self)
    try:
        return FIT(self, *a, **k)
    finally:
        STAND.parts.pop()


modelparts.ModelParts.fit = fit


def alike(cmp):
    """Qualities which differ by rounding only compare as equal, whatever the rounding."""
    def compare(self, other):
        a, b = getattr(self, "stat", None), getattr(other, "stat", None)
        if STAND.mode and a is not None and b is not None and a != b and abs(a - b) <= 1e-9 * max(abs(a), abs(b)):
            other = copy.copy(other)
            other.stat = a
        return cmp(self, other)
    return compare


for name in ("__lt__", "__le__", "__eq__", "__ne__", "__gt__", "__ge__"):
    if name in vars(ModelEvaluator):
        setattr(ModelEvaluator, name, alike(vars(ModelEvaluator)[name]))


# ---------------------------------------------------------------- parts
def base(f):
    return f.base if isinstance(f, TerminationRipples) else f


def kind(f):
    b = base(f)
    return ("g", 0) if isinstance(b, Gaussian) else ("o", 0) if isinstance(b, GaussianOverR) else ("p", b.degree) if isinstance(b, Polynomial) else ("-", 0)


def told(p, la, lb):
    """What the parameters of a part are multiplied by in other units."""
    k, deg = kind(p.owner())
    d = {"g": [(1, 0), (0, 0), (1, 1)], "o": [(1, 0), (0, 0), (2, 1)], "p": [(i - deg, 1) for i in range(deg + 1)], "-": []}[k]
    return [2.0 ** (la * u + lb * v) for u, v in d]


def moved(p, s, c):
    """What is added to the parameters of a part."""
    k, deg = kind(p.owner())
    if k in "go":
        return [s, 0, 0]
    if k == "-":
        return []
    return [0] * deg + ([c - (float(p.pars[0]) * s if deg == 1 else 0)] if deg >= 0 else [])


NUM = {"as": "exact"}
TOK = Intern()


def num(v):
    v = float(v)
    if NUM["as"] == "fixed":
        return fx(v)
    if v == 0 or not math.isfinite(v):
        return {"m": 0 if v == 0 else TOK(repr(v)) if NUM["as"] == "exact" else 2 ** 30 + (v > 0) - (v < 0), "e": 0}
    m, e = math.frexp(v)
    if NUM["as"] == "units":
        m = round(m * 2 ** 24)
        return {"m": m, "e": e}
    return {"m": TOK(m.hex()), "e": e}


def row(p):
    k, deg = kind(p.owner())
    return {"kind": k, "deg": deg, "free": [bool(v) for v in p.free], "rem": bool(p.removable), "par": [num(v) for v in p.pars]}


# ---------------------------------------------------------------- one problem, told otherwise
class Case:
    def __init__(self, rng, pdf, big):
        self.rng, self.pdf = rng, pdf
        P = self.P = X.Problem(rng, pdf, big=big, uniform=True if pdf else None)
        P.y = np.round(P.y * 2 ** 20) / 2 ** 20
        self.edy = P.edy
        self.drop = [k for k in ("effective_dy", "cres") if k in P.settings and rng.random() < 0.25]
        self.bl = P.bl
        if not hasattr(self.bl, "pars") and rng.random() < 0.6 or kind(self.bl.owner() if hasattr(self.bl, "pars") else self.bl)[0] == "-":
            d = rng.choice([-1, 0, 1])
            self.bl = Polynomial(d).actualize([0.25, -0.5][:d + 1], "internal", free=[rng.random() < 0.5 for _ in range(d + 1)])
        if hasattr(self.bl, "pars"):
            self.bl.pars = np.round(self.bl.pars * 2 ** 10) / 2 ** 10
        self.what = rng.choice(["extract"] * 6 + ["fit", "estimate", "abandon"])
        self.at = float(P.x[rng.randint(0, P.n - 1)])

    def can_move(self):
        """Exactly the same on another baseline, or from another origin?"""
        b = self.bl
        fixed = hasattr(b, "pars") and not any(b.free)
        gauss = all(isinstance(base(f), Gaussian) and f is base(f) for f in list(self.P.pf) + [m.owner() for m in self.P.ip])
        return not self.pdf and fixed and kind(b.owner())[1] >= 0, not self.pdf and fixed and gauss

    def telling(self, la=0, lb=0, s=0, c=0, y=None, dx=None):
        P, a, b, made = self.P, 2.0 ** la, 2.0 ** lb, {}

        def fn(f):
            if id(f) not in made:
                if isinstance(f, TerminationRipples):
                    made[id(f)] = TerminationRipples(fn(f.base), f.qmax / a, f.extension, f.supersample)
                else:
                    made[id(f)] = type(f)(f.maxwidth * a) if isinstance(f, (Gaussian, GaussianOverR)) else f
            return made[id(f)]

        def part(m):
            pars = [v * k + d for v, k, d in zip(m.pars, told(m, la, lb), moved(m, s, c))]
            return fn(m.owner()).actualize(pars, "internal", free=list(m.free), removable=m.removable, static_owner=m.static_owner)

        st = dict(P.settings, pf=[fn(f) for f in P.pf], effective_dy=P.edy * b, initial_peaks=Peaks([part(m) for m in P.ip]),
                  rng=[None if v is None else v * a + s for v in P.rng2], baseline=part(self.bl) if hasattr(self.bl, "pars") else fn(self.bl))
        if "cres" in st:
            st["cres"] *= a
        if "qmax" in st:
            st["qmax"] /= a
        for k in self.drop:
            st.pop(k, None)
        p = type(P.p)()
        p.setdata(P.x * a + s, (P.y if y is None else y) * b + c, 0.01 * a * np.ones(P.n) if dx is None else dx, P.edy * b)
        p.setvars(quiet=True, **st)
        return p, self.at * a + s

    def run(self, p, at, mode, form="exact", la=0, lb=0, s=0, c=0):
        NUM["as"] = form
        STAND.la, STAND.lb = la, lb
        STAND.begin(mode, s, c)
        found, cov = [], None
        try:
            if self.what == "estimate":
                k, v = call(p.estimate_peak, at, timeout=200)
                e, found = None, list(p.initial_peaks)
            elif self.what == "abandon":
                p.defaultvars()
                mc, e = ModelCluster(p.initial_peaks, p.baseline, p.x, p.y, p.effective_dy, p.getrangeslice(), p.error_method, p.pf), None
                if len(mc.model) == 0:
                    call(mc.estimatepeak)  # a telling without a guess has none
                STAND.worse, cov = True, ModelCovariance()
                call(mc.fit, cov=cov)
                k, found, cov = "ok" if cov.cov is None else "described", list(mc.model), None
            else:
                name = self.what if self.pdf else self.what + "_single"
                k, v = call(getattr(p, name), timeout=200)
                e = p.extracted
        except Diverged:
            k, v, e = "diverged", None, None
        finally:
            STAND.mode, STAND.worse = None, False
        if e is not None:
            found = list(e.model) + ([] if e.baseline is None else [e.baseline])
            cov = v.cov if k == "ok" else None
        r = {"ok": k == "ok", "fits": STAND.fits, "parts": [row(q) for q in found], "q": num(0), "pts": 0, "cov": []}
        if e is not None:
            r["q"], r["pts"] = num(e.quality().stat), len(e.r_cluster)
        if cov is not None and NUM["as"] == "units" and np.all(np.isfinite(cov)):
            dv, at0 = np.diag(cov), 0
            if sum(len(q.pars) for q in v.model) == len(dv):
                for m in v.model:
                    kd, deg = kind(m.owner())
                    r["cov"].append({"kind": kd.upper() if kd in "go" else kd, "deg": deg, "par": [num(t) for t in dv[at0:at0 + len(m.pars)]]})
                    at0 += len(m.pars)
        return r


def shape(r):
    """What must not hang on rounding for a comparison that is not exact."""
    return (r["ok"], [(f["n"], len(f["start"])) for f in r["fits"]], [(p["kind"], p["free"]) for p in r["parts"]], r["pts"])


def steady(case, ref, **how):
    """Does nothing in a run hang on rounding?"""
    for k in range(12):
        nr = np.random.RandomState(k)
        p, at = case.telling(y=case.P.y * (1 + 2e-13 * nr.randn(case.P.n)), **how)
        if shape(case.run(p, at, "units" if "la" in how else "moved", "fixed", **how)) != shape(ref):
            return False
    return True


def one(seed, i, big):
    rng = random.Random("%s-%d" % (seed, i))
    case = Case(rng, i % 2 == 1, big)
    first = case.run(*case.telling(), "first")
    tr = {"exact": first, "units": case.run(*case.telling(), "exact", "units"), "fixed": 0, "ev": [], "note": {"seed": "%s-%d" % (seed, i), "what": case.what, "pdf": case.pdf}}
    for _ in range(2):
        la, lb = rng.choice([(0, 2), (2, 0), (-2, 4), (4, -8), (-4, 10), (0, 20), (-8, -20), (-34, 0), (0, -60), (-24, -34)])
        r = case.run(*case.telling(la, lb), "units", "units", la=la, lb=lb)
        if shape(r) != shape(first) and not (steady(case, first) and steady(case, r, la=la, lb=lb)):
            tr["note"].setdefault("undecided", []).append([la, lb])
            continue
        tr["ev"].append({"op": "units", "la": la, "lb": lb, "run": r})
    tr["ev"].append({"op": "exact", "why": "errors of positions", "run": case.run(*case.telling(dx=rng.choice([0.0, 0.5]) * np.ones(case.P.n)), "exact")})
    if not case.pdf and not case.drop and hasattr(case.bl, "pars"):
        lo, hi = X.limits(case.P)
        out = np.array([not lo <= 4 * v <= hi for v in case.P.xi])
        if out.any():
            y = np.where(out, np.array([rng.choice([-50.0, 0.0, 3.0, 200.0]) for _ in out]), case.P.y)
            tr["ev"].append({"op": "exact", "why": "data outside the range", "run": case.run(*case.telling(y=y), "exact")})
    on, off = case.can_move()
    ways = ([(0, rng.choice([-64, 8, 64]))] if on else []) + ([(rng.choice([4, 32]), 0)] if off else []) + ([(8, -16)] if on and off else [])
    if ways:
        tr["fixed"] = fixed = case.run(*case.telling(), "moved", "fixed")
        for s, c in ways:
            r = case.run(*case.telling(s=s, c=c), "moved", "fixed", s=s, c=c)
            if shape(r) != shape(fixed) and not (steady(case, fixed) and steady(case, r, s=s, c=c)):
                tr["note"].setdefault("undecided", []).append([s, c])
                continue
            tr["ev"].append({"op": "moved", "s": s, "c": c, "run": r})
    NUM["as"] = "exact"
    return tr


def worker(a):
    logging.getLogger("diffpy.srmise").setLevel(logging.CRITICAL)
    call.late = 0
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return one(*a)
    except (Exception, CaseTimeout, Diverged) as ex:
        return {"fail": repr(ex), "text": traceback.format_exc()[-3000:], "seed": a[:2]}


def run(ck):
    for n, y in [(3, 2)] if ck.quick else [(3, 2), (4, 2)]:
        ck.model_check("Follow", "CONSTANTS N = %d MaxY = %d Groups <- SmallGroups\nSPECIFICATION Spec\nINVARIANT Follows Composes Once\nCHECK_DEADLOCK FALSE\n" % (n, y), "growth over every data of %d points told in every way" % n, timeout=3000)
    jobs = [(ck.seed, i, not ck.quick and i % 3 == 0) for i in range(ck.budget(240, 1600))]
    tr, undecided = [], 0
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for t in pool.imap(worker, jobs):
            if "fail" in t:
                ck.violate("a telling of a problem ended with %s" % t["fail"], t)
            else:
                tr.append(t)
                undecided += len(t["note"].get("undecided", []))
            if ck.left() < (120 if ck.quick else 500):
                break
        pool.terminate()
    ck.validate("FollowTrace", tr, what="extractions, fits and estimates told in other units, on other baselines, from other origins (%d tellings hung on rounding and were left out)" % undecided)
