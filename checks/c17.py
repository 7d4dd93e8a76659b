import math
import numpy as np
from vlib import call, fx
from diffpy.srmise.baselines.arbitrary import Arbitrary
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples

FORMATS = ["internal", "pwa", "mu_sigma_area"]
ALIAS = {"default_input": "internal", "default_output": "pwa"}
S = 2 * math.sqrt(2 * math.log(2))


def arr(rng, p):
    k = rng.random()
    if k < 0.3:
        return list(p)
    if k < 0.5 and all(float(v) == int(v) for v in p):
        return rng.choice([lambda q: [int(v) for v in q], lambda q: np.array(q, dtype=int)])(p)
    return rng.choice([np.array, tuple])([float(v) for v in p])


def fixed(q):
    return [fx(v) for v in q]


def spell(rng, f):
    """A name for this format."""
    c = [a for a, t in ALIAS.items() if t == f]
    return rng.choice(c) if c and rng.random() < 0.25 else f


def history(rng, n):
    cent = rng.choice([rng.randint(30, 1000), 100 * rng.randint(1, 10)])
    M = cent / 100
    kind = rng.choice(["gauss", "gauss", "overr", "overr", "rippled", "rippledr"])
    fn = (Gaussian if kind in ("gauss", "rippled") else GaussianOverR)(M if M != int(M) else rng.choice([int, float])(M))
    if kind.startswith("rippled"):
        fn = TerminationRipples(fn, rng.choice([18.0, 24, 30.0]))
    ev, peak, truth = [], None, None
    vals = {}

    def same(p, b):
        return list(np.asarray(p, dtype=float)) == b

    def given(f):
        """Parameters of the peak in format f, known without the code under test where possible."""
        pos, w, a = truth
        if f == "internal":
            return [float(v) for v in peak.pars]
        return [pos, w if f == "pwa" else w / S, a]

    while len(ev) < n:
        k = rng.random()
        if peak is None or k < 0.2:
            f = rng.choice(FORMATS)
            pos = rng.choice([rng.randint(1, 20), rng.uniform(0.5, 20)])
            area = rng.choice([0, rng.randint(1, 12), rng.uniform(0.01, 12)])
            if f == "internal":
                kk = rng.choice([k for k in range(-30, 31) if (k + 6) % 24])
                if rng.random() < 0.15:
                    kk = 0
                area *= rng.choice([1, 1, -1])
                p, q = [pos, kk * math.pi / 12, area], [fx(pos), kk, fx(area)]
                w = M * abs(math.cos(math.pi / 4 - kk * math.pi / 24))
            else:
                w = rng.choice([M * rng.uniform(0.02, 1), M * rng.uniform(0.02, 0.3), min(M, rng.randint(1, 3)), M, M])
                s = w / S
                p = [pos, w if f == "pwa" else s, area]
                q = fixed(p)
            name = spell(rng, f)
            args = {}
            asked = {"free": [True] * 3, "removable": True, "static": False}
            if rng.random() < 0.5:
                asked["free"] = [rng.random() < 0.5 for _ in range(3)]
                args["free"] = rng.choice([list, tuple, np.array])(asked["free"])
            if rng.random() < 0.5:
                args["removable"] = asked["removable"] = rng.random() < 0.5
            if rng.random() < 0.5:
                args["static_owner"] = asked["static"] = rng.random() < 0.5
            pp = arr(rng, p)
            b = [float(v) for v in pp]
            r, v = call(lambda: fn.actualize(pp, **args) if name == "default_input" and rng.random() < 0.5 else fn.actualize(pp, name, **args))
            e = {"op": "make", "f": name, "p": q, "r": "ok" if r == "ok" else v[0], "kept": same(pp, b), "asked": asked, "q": [], "flags": {}}
            if r == "ok":
                e.update(q=fixed(v.pars), flags={"free": [bool(t) for t in v.free], "removable": v.removable, "static": v.static_owner})
                peak, truth = v, (pos, w, abs(area))
            e["_note"] = {"par": p}
            ev.append(e)
            if r != "ok":
                break
            continue
        b = [float(v) for v in peak.pars]
        pos, w, area = truth
        if k < 0.42:
            f = spell(rng, rng.choice(FORMATS))
            how = rng.random()
            if f == "default_output" and how < 0.5:
                r, v = call(fn.transform_parameters, peak.pars, "internal")
            elif how < 0.7:
                r, v = call(fn.transform_parameters, peak.pars, spell(rng, "internal"), f)
            else:
                r, v = call(peak.owner().transform_parameters, rng.choice([list, tuple])(peak.pars), in_format="internal", out_format=f)
            ev.append({"op": "read", "f": f, "r": "ok" if r == "ok" else v[0], "q": fixed(v) if r == "ok" else [], "kept": same(peak.pars, b)})
        elif k < 0.62:
            f = rng.choice(FORMATS)
            path = [f] + [rng.choice(FORMATS) for _ in range(rng.randint(1, 5))]
            q = given(f)
            r, v, kept = "ok", q, True
            for i in range(len(path) - 1):
                src = arr(rng, v)
                c = [float(t) for t in src]
                r, v = call(fn.transform_parameters, src, spell(rng, path[i]), spell(rng, path[i + 1]))
                kept = kept and same(src, c)
                if r != "ok":
                    break
            ev.append({"op": "path", "f": path[-1], "r": "ok" if r == "ok" else v[0], "q": fixed(v) if r == "ok" else [], "kept": kept, "_note": path})
        elif k < 0.66:
            if area > 0.01 and w < 0.9 * M:
                f, g = rng.choice(FORMATS), rng.choice(FORMATS)
                q = given(f)
                cols = []
                for i in range(3):
                    h = 1e-5 * max(1, abs(q[i])) if i != 1 else 1e-6 * max(0.1, abs(q[i]))
                    up, dn = list(q), list(q)
                    up[i], dn[i] = q[i] + h, q[i] - h
                    cols.append((np.array(fn.transform_parameters(up, f, g), float) - np.array(fn.transform_parameters(dn, f, g), float)) / (2 * h))
                args = [spell(rng, f), spell(rng, g)]
                if f == "internal" and rng.random() < 0.5:
                    args[0] = None
                if g == "pwa" and rng.random() < 0.5:
                    args = args[:1] if rng.random() < 0.5 else [args[0], None]
                src = arr(rng, q)
                c = [float(t) for t in src]
                r, v = call(fn.transform_derivatives, src, *args)
                ok = r == "ok" and np.shape(v) == (3, 3)
                ev.append({"op": "grad", "r": "ok" if ok else "refused", "j": fixed(np.asarray(v, float).ravel()) if ok else [], "slope": fixed(np.array(cols).T.ravel()),
                           "same": f == g, "kept": same(src, c), "_note": [f, g, args]})
        elif k < 0.72:
            x = np.arange(max(0.3, pos - 2 * w), pos + 2 * w, w / 6)
            vs = []
            r = "ok"
            for f in rng.sample(FORMATS, 3):
                r, v = call(lambda: fn.actualize(arr(rng, given(f)), f).value(x))
                if r != "ok":
                    break
                vs.append(fixed(v))
            ev.append({"op": "curves", "r": "ok" if r == "ok" else v[0], "vs": vs})
        elif k < 0.86 and kind in ("gauss", "overr"):
            flat = (lambda x: peak.value(x)) if kind == "gauss" else (lambda x: peak.value(x) * np.abs(x))
            if rng.random() < 0.5:
                js = [j for j in range(-3, 4) if abs(pos + j * w / 2) > 1e-3]
                ev.append({"op": "shape", "js": js, "av": fixed(w * flat(np.array([pos + j * w / 2 for j in js])))})
            else:
                x = pos + (np.arange(-16, 17) + 0.37) * w / 4
                if np.min(np.abs(x)) > 1e-3:
                    ev.append({"op": "area", "dv": fixed(w / 4 * flat(x))})
        elif k < 0.92 and kind in ("gauss", "overr"):
            if area > 0.05 and abs(pos - 2 * w / S) > 0.02:
                r, v = call(fn.max, peak.pars)
                e = {"op": "max", "r": "ok" if r == "ok" else "refused", "x": 0, "y": 0, "there": 0, "left": 0, "right": 0}
                if r == "ok":
                    x, y = float(v[0]), float(v[1])
                    sc = w * (1 if kind == "gauss" else x)
                    # near the merging of maximum and minimum the curve is flat: steps that fall below the minimum tell nothing
                    d = min(w / 50, (2 * x - pos) / 4) if kind == "overr" else w / 50
                    at = lambda t: float(peak.value(t))
                    up = lambda t: int(math.floor((at(t) / at(x) - 1) * 1e12)) if abs(at(t) / at(x) - 1) < 1e-3 else (-10 ** 9 if at(t) < at(x) else 10 ** 9)
                    e.update(x=fx(x), y=fx(y * sc), there=fx(at(x) * sc), left=fx(y * sc) + max(-10 ** 9, min(10 ** 9, up(x - d))), right=fx(y * sc) + max(-10 ** 9, min(10 ** 9, up(x + d))))
                ev.append(e)
        elif k < 0.96:
            f = rng.choice(FORMATS[1:])
            big = rng.random() < 0.7
            ww = M * rng.uniform(1.001, 3) if big else M * rng.uniform(0.5, 0.999)
            p = [pos, ww if f == "pwa" else ww / S, area]
            to = rng.choice([t for t in FORMATS if t != f])
            r, v = call(lambda: rng.choice([lambda: fn.actualize(arr(rng, p), f), lambda: fn.transform_parameters(arr(rng, p), f, to)])())
            ev.append({"op": "wide", "f": f, "p": fixed(p), "r": "ok" if r == "ok" else "refused"})
        else:
            bad = rng.choice(["pwb", "", "Internal", None, 3])
            g = rng.choice(FORMATS)
            cases = [("an unknown format to convert to", lambda: fn.transform_parameters(given(g), g, bad or "x")), ("an unknown format to convert from", lambda: fn.transform_parameters(given(g), bad or "x", g)),
                     ("an unknown format to convert derivatives to", lambda: fn.transform_derivatives(given(g), g, bad or "x")), ("an unknown format to convert derivatives from", lambda: fn.transform_derivatives(given(g), bad or "x", g)),
                     ("a peak in an unknown format", lambda: fn.actualize(given(g), bad or "x")), ("a peak of two parameters", lambda: fn.actualize(given(g)[:2], g)),
                     ("a peak of four parameters", lambda: fn.actualize(given(g) + [1.0], g)), ("a peak of no parameters", lambda: fn.actualize([], g)),
                     ("flags of the wrong number", lambda: fn.actualize(given(g), g, free=[True, False])), ("a largest width of zero", lambda: type(getattr(fn, "base", None) or fn)(0)),
                     ("a negative largest width", lambda: type(getattr(fn, "base", None) or fn)(-1.0))]
            what, c = rng.choice(cases)
            r, v = call(c)
            ev.append({"op": "refuse", "what": what, "r": "refused" if r == "err" and v[0] != "TIMEOUT" else "ok", "kept": same(peak.pars, b)})
    return {"M": cent, "kind": kind, "ev": ev}


def plain(rng):
    n = rng.randint(0, 4)
    fn, n = rng.choice([(Polynomial(n - 1), n), (NanoSpherical(), 2), (FromSequence([1, 2, 3, 4], [1, 3, 2, 5]), 0), (Arbitrary(n, lambda p, x: x), n)])
    ev = []
    for _ in range(3):
        p = [rng.choice([rng.randint(0, 9), rng.uniform(0, 9)]) for _ in range(n)]
        pp = arr(rng, p)
        b = [float(v) for v in pp]
        names = ["internal", "default_input", "default_output"]
        k = rng.random()
        if k < 0.2:
            what, c = rng.choice([("an unknown format of a baseline", lambda: fn.transform_parameters(pp, "internal", "pwa")), ("a baseline in an unknown format", lambda: fn.actualize(pp, "pwa")),
                                  ("a baseline of too many parameters", lambda: fn.actualize(list(p) + [1.0], "internal")),
                                  ("flags of the wrong number", lambda: fn.actualize(pp, "internal", free=[True] * (n + 1)))])
            r, v = call(c)
            ev.append({"op": "refuse", "what": what, "r": "refused" if r == "err" and v[0] != "TIMEOUT" else "ok", "kept": [float(v) for v in pp] == b})
            continue
        if k < 0.35:
            r, v = call(fn.transform_derivatives, pp, *rng.choice([[], [None, None], [rng.choice(names), rng.choice(names)], [rng.choice(names)]]))
            one = np.identity(n)
            ok = r == "ok" and np.shape(v) == (n, n)
            ev.append({"op": "grad", "r": "ok" if ok else "refused", "j": fixed(np.asarray(v, float).ravel()) if ok else [], "slope": fixed(one.ravel()),
                       "same": True, "kept": [float(v) for v in pp] == b})
            continue
        if k < 0.6:
            r, v = call(fn.transform_parameters, pp, rng.choice(names), rng.choice(names))
        else:
            r, v = call(lambda: fn.actualize(pp, rng.choice(names)).pars)
        ev.append({"op": "same", "r": "ok" if r == "ok" else v[0], "p": fixed(b), "q": fixed(v) if r == "ok" else [], "kept": [float(v) for v in pp] == b})
    return {"M": 100, "kind": "plain", "ev": ev}


def run(ck):
    ck.model_check("Formats", "CONSTANTS KMax = %d MMax = %d\nSPECIFICATION Spec\nINVARIANT Canonical Distinct Folds Squares\nPROPERTY Same\nCHECK_DEADLOCK FALSE\n" % (ck.budget(18, 30), ck.budget(6, 40)), "a peak made and read in all formats, again and again")
    rng = ck.rng
    tr = [history(rng, 10) for _ in range(ck.budget(4000, 18000))] + [plain(rng) for _ in range(ck.budget(800, 4000))]
    ck.validate("FormatsTrace", tr, what="recorded histories of peaks in their formats")
