import itertools
import math
import numpy as np
from vlib import call, fx
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples


def event(rng, r, y):
    """A guess from the points r (integers) with values y, in real units of some size."""
    step, off, scale = rng.choice([1.0, 0.1, rng.uniform(0.01, 0.5)]), rng.choice([0.0, rng.uniform(0, 5)]), rng.choice([1.0, rng.uniform(0.01, 30), 1e5])
    M = step * rng.choice([1000, 1000, rng.uniform(1, 30)])
    cls = rng.choice([Gaussian, GaussianOverR])
    base = cls(M)
    fn = base if rng.random() < 0.7 else TerminationRipples(base, rng.uniform(10, 30))
    rr, yy = off + step * np.array(r, float), scale * np.array(y, float)
    if rng.random() < 0.1 and all(isinstance(v, int) for v in y):
        scale, yy = 1, np.array(y, int)
    r0, y0 = rr.copy(), yy.copy()
    k, v = call(fn.estimate_parameters, rr, yy)
    e = {"op": "guess", "d": {"r": list(r), "y": list(y)}, "M": fx(M / step, 10 ** 4), "kept": np.array_equal(rr, r0) and np.array_equal(yy, y0),
         "g": {"pos": 0, "wid": 0, "top": 0, "fit": False}, "_note": {"fn": cls.__name__, "rippled": fn is not base, "step": step, "off": off, "scale": scale}}
    e["r"] = "ok" if k == "ok" else "refused" if "SrMiseEstimationError" in v else "error " + v[0]
    if k == "ok":
        p = np.asarray(v, float)
        e["g"] = {"pos": fx((p[0] - off) / step, 10 ** 4), "wid": fx(M * math.sqrt(max(0.0, (1 + math.sin(p[1])) / 2)) / step, 10 ** 4),
                  "top": fx(float(base.actualize(p, "internal").value(np.array([p[0]]))[0]) / scale, 10 ** 3),
                  "fit": bool(len(p) == 3 and abs(p[1]) <= math.pi / 2 + 1e-9 and np.all(np.isfinite(p)))}
    return e


def points(rng):
    n = rng.randint(1, 9)
    r = sorted(rng.sample(range(1, 21), n))
    hi = 2 ** rng.randint(0, 6)
    y = [rng.randint(1, hi) for _ in r]
    kind = rng.random()
    if kind < 0.1:
        y = [hi] * n
    elif kind < 0.3 and n % 2:
        r = list(range(r[0], r[0] + n))
        y = [max(1, 64 >> min(6, (i - n // 2) ** 2)) for i in range(n)]
    else:
        for i in {0, n - 1, rng.randrange(n)}:
            y[i] = 2 ** rng.randint(0, int(math.log2(hi)))
    for i in range(n):
        if rng.random() < 0.1:
            y[i] = rng.randint(-5, 0)
    # ratios of both ends and of the lowest value to the highest one are powers of two
    use = [i for i in range(n) if y[i] > 0]
    if use:
        y[rng.choice(use)] = hi
        for i in (use[0], use[-1]):
            if y[i] & (y[i] - 1):
                y[i] = hi
        lo = min(y[i] for i in use)
        if lo & (lo - 1):
            y = [1 if v == lo else v for v in y]
    if rng.random() < 0.04:
        y = y[:-1] if rng.random() < 0.5 else y + [1]
    return r, y


def run(ck):
    ck.model_check("Guess", "CONSTANTS Ys = {0, 1, 2, 4} N = %d\nSPECIFICATION Spec\nINVARIANT Inside Whole\nPROPERTY Related\nCHECK_DEADLOCK FALSE\n" % ck.budget(5, 6),
                   "all data of up to %d points with values of four sizes" % ck.budget(5, 6))
    tr = []
    for n in (2, 3, 4):
        for y in itertools.product([-1, 1, 2, 8], repeat=n):
            tr.append({"ev": [event(ck.rng, [3 * i + i * i // 3 for i in range(1, n + 1)], list(y))]})
    for _ in range(ck.budget(10000, 40000)):
        tr.append({"ev": [event(ck.rng, *points(ck.rng))]})
    ck.validate("GuessTrace", tr, what="recorded guesses")
