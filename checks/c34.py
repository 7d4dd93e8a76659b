import contextlib, io, logging, multiprocessing, os, random, traceback
import numpy as np
from vlib import call, fx, CaseTimeout
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR


def one(seed, i):
    """Data made of peaks which stand apart, searched for them."""
    rng = random.Random("%s %s" % (seed, i))
    f = rng.choice([Gaussian, GaussianOverR])(1.5)
    way = rng.choice(["single"] * 5 + ["pdf"])
    lo, hi = rng.choice([(0.9, 1.2), (1.0, 1.4)])
    c, true = 3.0, []
    for _ in range(rng.randint(1, 5)):
        true.append([c, rng.uniform(0.4, 0.65), rng.uniform(2, 8)])
        c += rng.uniform(lo, hi)
    x = np.arange(2.0, c, 0.1)
    y = Peaks([f.actualize(p, "pwa") for p in true]).value(x)
    e = rng.choice([0.01, 0.03]) * max(y)
    sd = rng.choice([0.1, 0.2]) * e
    y = y + sd * np.array([rng.gauss(0, 1) for _ in x])
    level = rng.choice([0.0, 0.0, rng.uniform(-3, 3)])
    y = y + level
    free = rng.random() < 0.4
    bl = Polynomial(0).actualize([level], "internal", free=[free])
    if level == 0.0 and rng.random() < 0.5:
        bl = rng.choice([Polynomial(-1), Polynomial(0)])
    known = [p for p in true if rng.random() < 0.5] if rng.random() < 0.2 else []
    p = PeakExtraction() if way == "single" else PDFPeakExtraction()
    p.setdata(x, y)
    kw = dict(pf=[f], cres=rng.choice([0.2, 0.3, 0.4]), effective_dy=e * np.ones(len(x)), baseline=bl, error_method=rng.choice([AIC, AICc]),
              initial_peaks=Peaks([f.actualize(q, "pwa", removable=rng.random() < 0.5) for q in known]))
    if way != "single":
        kw.update(qmax=0.0, nyquist=False)
    p.setvars(quiet=True, **kw)
    k, v = call(p.extract_single if way == "single" else p.extract, timeout=60)
    hid = true
    ev = {"r": "ok" if k == "ok" else v[0], "hid": [{"pos": fx(a, 1000), "w": fx(b, 1000), "a": fx(s, 1000)} for a, b, s in hid]}
    if k == "ok":
        c = p.extracted
        got = [[float(t) for t in q.owner().transform_parameters(q.pars, "internal", "pwa")] for q in c.model]
        ev.update(got=[{"pos": fx(a, 1000), "w": fx(b, 1000), "a": fx(s, 1000)} for a, b, s in got], tol=100, small=fx(3 * e, 1000),
                  left=min(10 ** 6, fx(float(np.mean((c.residual() / e) ** 2)), 1000)),
                  bl=fx(float(c.baseline.pars[0]) if len(c.baseline.pars) else level, 1000), bl0=fx(level, 1000), bltol=fx(e, 1000) + 1)
    return {"ev": [ev], "note": {"seed": [seed, i], "way": way, "kind": type(f).__name__, "noise": e, "bl": type(bl).__name__, "sep": lo, "known": len(known), "free": free}}


def worker(a):
    logging.getLogger("diffpy.srmise").setLevel(logging.CRITICAL)
    call.late = 0
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return one(*a)
    except (Exception, CaseTimeout) as ex:
        return {"fail": repr(ex), "text": traceback.format_exc()[-3000:], "seed": a}


def run(ck):
    for n, h, gap, errs in [(7, 2, 4, 1)] if ck.quick else [(7, 2, 4, 1), (6, 2, 3, 2), (6, 3, 3, 1)]:
        ck.model_check("Recovery", "CONSTANTS L = %d MaxH = %d Gap = %d Errs = %d\nSPECIFICATION Spec\nINVARIANT All\nCHECK_DEADLOCK FALSE\n" % (n, h, gap, errs),
                       "all data of peaks apart by %d on %d places, with %d wrong steps" % (gap, n, errs), workers=8, timeout=1500)
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        os.environ[v] = "1"
    tr = []
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for t in pool.imap(worker, [(ck.seed, i) for i in range(ck.budget(1000, 7000))], chunksize=4):
            if "fail" in t:
                ck.violate("a search ended with %s" % t["fail"], t)
            else:
                tr.append(t)
            if ck.left() < (120 if ck.quick else 500):
                break
        pool.terminate()
    ck.validate("RecoveryTrace", tr, what="searches for peaks which stand apart")
