import os
import numpy as np
from vlib import call, fx
from diffpy.srmise.baselines.arbitrary import Arbitrary
from diffpy.srmise.baselines.base import Baseline
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial


def whole(v):
    v = float(v)
    r = int(round(v)) if abs(v) < 2e9 else 2000000000
    return r if abs(v - r) < 1e-7 * max(1, abs(v)) else 1999999999


def evaluate(rng, f, pars, xs, free, enc, encj=None, e=None):
    """Value and Jacobian of f with these parameters, however it is asked for."""
    e = e or {}
    free = list(free)
    b = f.actualize(rng.choice([list, np.array, tuple])(pars), rng.choice(["internal", "default_input"]), free=free)
    before = ([float(v) for v in b.pars], list(b.free))
    how = rng.choice(["array", "array", "ints", "scalar", "np", "slice", "raw"])
    if how == "ints" and any(v != int(v) for v in xs):
        how = "array"
    x = np.array(xs, dtype=int if how == "ints" else float)
    x0 = x.copy()
    ask = {"array": lambda q: q(x), "ints": lambda q: q(x), "slice": lambda q: q(x, slice(0, len(x)))}

    def get(q):
        if how in ask:
            return ask[how](q)
        if how == "raw":
            return q(x)
        return [q(np.float64(v) if how == "np" else float(v)) for v in xs]

    val = (lambda *a: f._valueraw(b.pars, *a)) if how == "raw" else b.value
    k, v = call(get, val)
    e.update(r="ok" if k == "ok" else v[0], v=[enc(t) for t in v] if k == "ok" else [], x=[], p=[], free=[bool(t) for t in b.free])
    k, j = call(get, b.jacobian)
    e["rj"] = "ok" if k == "ok" else "refused" if "NotImplementedError" in j else j[0]
    cols = []
    if k == "ok":
        enc = encj or enc
        if how in ("scalar", "np"):
            n = len(j[0]) if len(j) else 0
            cols = [[] if j[0][i] is None else [enc(t[i]) for t in j] for i in range(n)]
        else:
            cols = [[] if c is None else [enc(t) for t in c] for c in j]
    e["jac"] = cols
    e["kept"] = before == ([float(v) for v in b.pars], list(b.free)) and bool(np.all(x == x0))
    return e


def poly(rng):
    n = rng.randint(0, 5)
    p = [rng.randint(-9, 9) for _ in range(n)]
    f = Polynomial(rng.choice([n - 1, str(n - 1)]) if n else rng.choice([-1, -5, "-1"]))
    xs = sorted(rng.randint(-9, 9) for _ in range(rng.randint(1, 8)))
    e = evaluate(rng, f, p, xs, [rng.random() < 0.7 for _ in p], whole)
    e.update(op="poly", p=p, x=xs, tol=0)
    return e


def userfns(rng, w):
    val = lambda pars, x: w * sum(pars[k] * np.asarray(x) ** k for k in range(len(pars))) + 0.0 * np.asarray(x)
    jac = lambda pars, x, free: [w * np.asarray(x) ** k + 0.0 * np.asarray(x) if free[k] else None for k in range(len(pars))]
    return val, jac


def user(rng):
    n = rng.randint(0, 4)
    w = rng.randint(1, 5)
    p = [rng.randint(-9, 9) for _ in range(n)]
    val, jac = userfns(rng, w)
    has = rng.random() < 0.6
    f = Arbitrary(rng.choice([n, str(n)]), val, jac if has else None)
    xs = sorted(rng.randint(-9, 9) for _ in range(rng.randint(1, 8)))
    e = evaluate(rng, f, p, xs, [rng.random() < 0.6 for _ in p], whole)
    e.update(op="user", p=p, x=xs, w=w, hasjac=has, tol=0)
    return e


def sphere(rng):
    s, R = rng.choice([-1, 1]) * rng.randint(1, 20), rng.choice([-1, 1]) * rng.choice([1, 2, 4, 8, 16])
    js = sorted(rng.randint(-4, 14) for _ in range(rng.randint(1, 9)))
    xs = [abs(R) * j / 4 for j in js]
    f = NanoSpherical()
    b = Baseline(f, [s, R], [rng.random() < 0.8, rng.random() < 0.8])
    e = {}
    x = np.array(xs)
    how = rng.random()
    if how < 0.7:
        k, v = call(b.value, x)
        kj, j = call(b.jacobian, x)
        cols = [] if kj != "ok" else [[] if c is None else [whole(4096 * t) for t in c] for c in j]
    else:
        k, v = call(lambda: [b.value(float(t)) for t in xs])
        kj, j = call(lambda: [b.jacobian(float(t)) for t in xs])
        cols = [] if kj != "ok" else [[] if j[0][i] is None else [whole(4096 * t[i]) for t in j] for i in range(2)]
    e.update(op="sphere", r="ok" if k == kj == "ok" else str(v if k != "ok" else j), v=[whole(4096 * t) for t in v] if k == "ok" else [], jac=cols,
             p=[s, R], x=js, free=[bool(t) for t in b.free], tol=0, kept=[float(t) for t in b.pars] == [s, R] and list(x) == xs)
    return e


def knots(rng, n):
    x, out = rng.randint(-5, 5), []
    for _ in range(n):
        out.append(x)
        x += rng.randint(1, 3)
    return out


def build(rng, ck, px, py):
    k = rng.choice(["lists", "arrays", "keywords", "file", "file keyword"])
    if k.startswith("file"):
        path = os.path.join(ck.tmp, "seq")
        with open(path, "w") as f:
            f.write(rng.choice(["", "# comment\n# 1 2\n", "#x y\n"]) + "".join("%r %r%s\n" % (a, b, rng.choice(["", " 7"])) for a, b in zip(px, py)))
        return FromSequence(path) if k == "file" else FromSequence(file=path)
    if k == "arrays":
        return FromSequence(np.array(px, float), np.array(py, float))
    if k == "keywords":
        return FromSequence(y=py, x=px)
    return FromSequence(px, py)


def sequence(rng, ck):
    px = knots(rng, rng.choice([4, 5, 7, 12]))
    py = [rng.randint(-9, 9) for _ in px]
    f = build(rng, ck, px, py)
    xs = sorted(rng.sample(px, rng.randint(1, len(px))))
    e = evaluate(rng, f, [], xs, [], lambda v: fx(v))
    e.update(op="sequence", px=px, py=[v * 10 ** 6 for v in py], x=xs, tol=20)
    return e


def cubic(rng, ck):
    px = knots(rng, rng.choice([4, 5, 6]))
    c = [rng.randint(-2, 2) for _ in range(4)]
    py = [c[0] * t ** 3 + c[1] * t ** 2 + c[2] * t + c[3] for t in px]
    f = build(rng, ck, px, py)
    ks = sorted(rng.randint(4 * px[0], 4 * px[-1]) for _ in range(6))
    e = evaluate(rng, f, [], [k / 4 for k in ks], [], lambda v: int(round(64 * float(v))) if abs(64 * float(v) - round(64 * float(v))) < 1e-4 else 10 ** 8)
    e.update(op="cubic", p=c, x=ks, tol=0)
    return e


def estimate(rng, ck):
    n = rng.choice([1, 2, 3, 15, 40])
    r = np.array(sorted(rng.uniform(0.2, 9) for _ in range(n)))
    y = np.array([rng.uniform(-3, 3) for _ in r])
    kind = rng.choice(["poly", "poly", "sphere", "sequence", "user", "user without"])
    possible, np_ = True, 0
    if kind == "poly":
        d = rng.randint(-1, 3)
        f, np_, possible = Polynomial(d), max(d, -1) + 1, d <= 1
    elif kind == "sphere":
        f, possible, np_ = NanoSpherical(), False, 2
    elif kind == "sequence":
        f = build(rng, ck, [1, 2, 3, 4], [1, 2, 1, 2])
    else:
        np_ = rng.randint(0, 3)
        val, jac = userfns(rng, 1)
        possible = kind == "user"
        f = Arbitrary(np_, val, jac, (lambda a, b: np.zeros(np_)) if possible else None)
    r0, y0 = r.copy(), y.copy()
    k, v = call(f.estimate_parameters, r, y)
    return {"op": "estimate", "possible": possible, "np": np_, "n": len(v) if k == "ok" else -1, "r": "ok" if k == "ok" else "refused" if "NotImplementedError" in v else v[0],
            "kept": bool(np.all(r == r0) and np.all(y == y0)), "_note": kind}


def refuse(rng, ck):
    val, jac = userfns(rng, 1)
    p2 = Polynomial(2)
    bad = os.path.join(ck.tmp, "bad")
    x = np.array([1.0, 2.0])

    def broken(text):
        with open(bad, "w") as f:
            f.write(text)
        return FromSequence(bad)

    cases = [("a degree which is no integer", lambda: Polynomial("x")), ("a fractional degree", lambda: Polynomial(1.5)),
             ("a value function which is not callable", lambda: Arbitrary(1, 5)), ("a derivative which is not callable", lambda: Arbitrary(1, val, 5)),
             ("an estimate which is not callable", lambda: Arbitrary(1, val, jac, 5)), ("a negative number of parameters", lambda: Arbitrary(-1, val)),
             ("a number of parameters which is no integer", lambda: Arbitrary("x", val)),
             ("too few parameters of a polynomial", lambda: p2.actualize([1, 2], "internal").value(x)), ("too many parameters of a polynomial", lambda: p2.actualize([1, 2, 3, 4], "internal").value(x)),
             ("too many parameters of a sphere", lambda: NanoSpherical().actualize([1, 2, 3], "internal").value(x)),
             ("parameters of a sequence", lambda: FromSequence([1, 2, 3, 4], [1, 2, 3, 4]).actualize([1.0], "internal").value(x)),
             ("too few parameters of a user's function", lambda: Arbitrary(2, val, jac).actualize([1.0], "internal").value(x)),
             ("sequences of different length", lambda: FromSequence([1, 2, 3, 4, 5], [1, 2, 3, 4])), ("one sequence", lambda: FromSequence(x=[1, 2, 3, 4])),
             ("three sequences", lambda: FromSequence([1], [2], [3])), ("a sequence and a file", lambda: FromSequence(x=[1, 2, 3, 4], y=[1, 2, 3, 4], file="f")),
             ("a file which is not there", lambda: FromSequence(os.path.join(ck.tmp, "none"))),
             ("a file of words", lambda: broken("# c\n1 2\n2 x\n3 4\n4 5\n5 6\n")), ("a file of one column", lambda: broken("1\n2\n3\n4\n5\n")),
             ("an unknown format", lambda: p2.actualize([1, 2, 3], "pwa")), ("an unknown format of a sphere", lambda: NanoSpherical().transform_parameters([1, 2], "internal", "pwa")),
             ("data of different length", lambda: Polynomial(1).estimate_parameters(x, np.array([1.0])))]
    what, fn = rng.choice(cases)
    k, v = call(fn)
    return {"op": "refuse", "what": what, "r": "refused" if k == "err" and v[0] != "TIMEOUT" else "ok"}


def run(ck):
    ck.model_check("Curves", "CONSTANTS CMax = %d XMax = 3\nSPECIFICATION Spec\nINVARIANT Changed Agree Round Falls\nCHECK_DEADLOCK FALSE\n" % ck.budget(1, 2), "the definitions on small coefficients and points")
    rng = ck.rng
    gens = [lambda: poly(rng), lambda: user(rng), lambda: sphere(rng), lambda: sequence(rng, ck), lambda: cubic(rng, ck), lambda: estimate(rng, ck), lambda: refuse(rng, ck)]
    tr = [[g()] for g in gens for _ in range(ck.budget(1500, 9000))]
    ck.validate("CurvesTrace", tr, what="recorded evaluations, estimates and refusals")
