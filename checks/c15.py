import itertools, os
import numpy as np
from vlib import call, Intern
from fakes import IPeak, IBase, Hat
from diffpy.srmise.basefunction import BaseFunction
from diffpy.srmise.baselines.arbitrary import Arbitrary
from diffpy.srmise.baselines.base import Baseline, BaselineFunction
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.nanospherical import NanoSpherical
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.peaks.base import Peak, PeakFunction
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples

GRID = np.linspace(0.4, 4.6, 22)


def number(rng):
    return rng.choice([rng.randint(1, 30), rng.uniform(0.1, 30), 0.7, 1 / 3, np.float64(rng.uniform(0.1, 3)), 1e-17 * rng.randint(1, 9)])


def make(rng, kind, base):
    """A function of the given kind on the given base (or None when the kind takes none or needs one)."""
    if kind == "Gaussian":
        return Gaussian(abs(number(rng)) + 0.1)
    if kind == "GaussianOverR":
        return GaussianOverR(abs(number(rng)) + 0.1)
    if kind == "TerminationRipples":
        return TerminationRipples(base, rng.choice([10, 20.5, 7.25, np.float64(15.1)]), **rng.choice([{}, {"extension": 3.0}, {"supersample": 2.5, "extension": 5}]))
    if kind == "IPeak":
        return IPeak(rng.randint(1, 4), rng.randint(1, 9), base=base)
    if kind == "Hat":
        return Hat(base=base)
    if kind == "Polynomial":
        return Polynomial(rng.choice([-1, 0, 1, 2, 3, "2"]))
    if kind == "NanoSpherical":
        return NanoSpherical()
    if kind == "FromSequence":
        n = rng.choice([4, 5, 9, 60, 1200])
        x = [0.1 + 5.0 * i / n for i in range(n)]
        y = [rng.uniform(-9, 9) for _ in x]
        return FromSequence(*rng.choice([(x, y), (np.array(x), np.array(y))]))
    if kind == "IBase":
        return IBase(rng.randint(0, 3), rng.randint(1, 9), base=base)


ROOT = ["Gaussian", "GaussianOverR", "IPeak", "Hat", "Polynomial", "NanoSpherical", "FromSequence", "IBase"]
NESTED = ["TerminationRipples", "IPeak", "IBase", "Hat", "TerminationRipples"]
ATTR = ["maxwidth", "qmax", "extension", "supersample", "degree", "n", "w", "minx", "maxx"]


def peaky(f):
    return isinstance(f, (Gaussian, GaussianOverR))


def what(f):
    """Type, settings and behaviour of a function, without what it is built from."""
    a = [(n, float(getattr(f, n)).hex()) for n in ATTR if hasattr(f, n)]
    v = []
    if not isinstance(f, TerminationRipples):
        pars = [2.5, 0.35, 1.5, 0.25, 0.75][: f.npars]
        fr = [True] * f.npars
        p = (Peak if isinstance(f, PeakFunction) else Baseline)(f, np.array(pars), fr)
        v = [np.asarray(f.value(p, GRID), float).tobytes(), b"".join(np.asarray(j, float).tobytes() for j in f.jacobian(p, GRID)),
             f.npars, sorted(f.parameterdict.items()), tuple(f.parformats), sorted(f.default_formats.items())]
    return repr((type(f).__module__, type(f).__name__, a, v))


def world(rng, bases):
    fs = []
    for i, b in enumerate(bases):
        base = fs[b - 1] if b else None
        kinds = ROOT if base is None else [k for k in NESTED if k != "TerminationRipples" or peaky(base)]
        if base is not None and isinstance(base, BaselineFunction):
            kinds = ["IBase"]
        fs.append(make(rng, rng.choice(kinds), base))
    return fs


def idx(fs, f):
    for i, g in enumerate(fs):
        if g is f:
            return i + 1
    return -1


def rebuild(fs, q, tok):
    objs = [fs[i - 1] for i in q]
    txt = []
    for f in objs:
        k, v = call(f.writestr, objs)
        if k != "ok":
            return ("unwritable" if "ValueError" in v else "error " + v[0]), [], []
        txt.append(v)
    new = []
    for t in txt:
        k, v = call(BaseFunction.factory, t, new)
        if k != "ok":
            return ("unreadable" if "ValueError" in v else "error " + v[0]), [], txt
        new.append(v)
    return "ok", [{"what": tok(what(f)), "base": 0 if f.base is None else idx(new, f.base)} for f in new], txt


def part(rng, fs, q):
    o = rng.randint(1, len(fs))
    f = fs[o - 1]
    pars = [rng.choice([rng.uniform(0.1, 5), rng.randint(1, 5), 1e-9, 1e12, -1 / 3]) for _ in range(f.npars)]
    if isinstance(f, (Gaussian, GaussianOverR, TerminationRipples)):
        pars = [1.5, 0.3, rng.uniform(0.1, 9)]
    cls = Peak if isinstance(f, PeakFunction) else Baseline
    kw = {"free": None if rng.random() < 0.2 else [rng.random() < 0.5 for _ in pars]}
    if rng.random() < 0.8:
        kw.update(removable=rng.random() < 0.5)
    if rng.random() < 0.8:
        kw.update(static_owner=rng.random() < 0.5)
    if rng.random() < 0.5:
        p = cls(f, np.array(pars), **kw)
    else:
        p = f.actualize(pars, "internal", **kw)
    objs = [fs[i - 1] for i in q]
    n = len(q) if rng.random() < 0.8 else rng.randint(0, len(q))
    desc = lambda t: [[float(v).hex() for v in t.pars], [bool(v) for v in t.free], bool(t.removable), bool(t.static_owner)]
    e = {"op": "part", "q": q, "n": n, "owner": o, "old": str(desc(p)), "new": "", "newowner": 0, "kind": False}
    k, v = call(p.writestr, objs)
    if k != "ok":
        e["r"] = "unwritable" if "ValueError" in v else "error " + v[0]
        return e
    k, v = call(cls.factory, v, objs[:n])
    if k != "ok":
        e["r"] = "unreadable" if "ValueError" in v else "error " + v[0]
        return e
    e.update(r="ok", new=str(desc(v)), newowner=idx(objs, v.owner()), kind=type(v) is cls)
    return e


def damaged(rng):
    g = GaussianOverR(0.7)
    t = TerminationRipples(g, 20.0)
    txt, base = t.writestr([g]), [g]
    pk = g.actualize([1.0, 0.2, 3.0], "internal")
    bl = Polynomial(1)
    b = bl.actualize([1, 2], "internal")
    out = []
    what = rng.choice(["missing function", "missing module", "unknown function", "unknown module", "reference outside the list", "negative reference",
                       "empty", "unreadable value", "unknown setting", "reference of another type",
                       "owner outside the list", "negative owner", "line without value", "unreadable parameter", "missing owner", "unknown field"])
    s = txt
    if what == "missing function":
        s = s.replace("function=", "fnction=")
    elif what == "missing module":
        s = s.replace("module=", "mod=")
    elif what == "unknown function":
        s = s.replace("TerminationRipples", "NoSuchFunction", 1)
    elif what == "unknown module":
        s = s.replace("terminationripples", "nosuchmodule")
    elif what == "reference outside the list":
        s = s.replace("base=0", "base=%d" % rng.randint(1, 9))
    elif what == "negative reference":
        s = s.replace("base=0", "base=-1")
    elif what == "reference of another type":
        s = s.replace("base=0", "base='0'")
    elif what == "empty":
        s = ""
    elif what == "unreadable value":
        s = s.replace("qmax=", "qmax=(")
    elif what == "unknown setting":
        s = s + "color=3\n"
    if s is not txt:
        k, v = call(BaseFunction.factory, s, base)
        out.append({"op": "damaged", "what": what + " of a function", "r": "refused" if k == "err" and v[0] != "TIMEOUT" else "ok"})
    for cls, p, o in ((Peak, pk, [g]), (Baseline, b, [bl])):
        s0 = s = p.writestr(o)
        if what == "owner outside the list":
            s = s.replace("owner=0", "owner=%d" % rng.randint(1, 9), 1)
        elif what == "negative owner":
            s = s.replace("owner=0", "owner=-1", 1)
        elif what == "line without value":
            s = s.replace("removable=", "removable ")
        elif what == "unreadable parameter":
            s = s.replace("pars=[", "pars=[[")
        elif what == "missing owner":
            s = s.replace("\nowner", "\nxowner") if "\nowner" in s else s[s.index("\n") + 1:]
        elif what == "unknown field":
            s = s + "color=3\n"
        if s != s0:
            k, v = call(cls.factory, s, o)
            out.append({"op": "damaged", "what": what + " of a model part", "r": "refused" if k == "err" and v[0] != "TIMEOUT" else "ok"})
    fns = [lambda pars, x: pars[0] * np.ones_like(x)] + [lambda pars, x, free: [np.ones_like(x)]][: rng.randint(0, 1)]
    k, v = call(lambda: BaseFunction.factory(Arbitrary(1, *fns).writestr([]), []))
    out.append({"op": "damaged", "what": "function made from the user's own code", "r": "refused" if k == "err" and v[0] != "TIMEOUT" else "ok"})
    return {"base": [0], "what": [0], "ev": out}


def one(rng, bases, tok, lists):
    fs = world(rng, bases)
    ev = []
    for l in lists:
        given = [fs[i - 1] for i in l]
        k, v = call(BaseFunction.safefunctionlist, given)
        q = [idx(fs, f) for f in v] if k == "ok" else [-1]
        ev.append({"op": "list", "fs": l, "q": q, "kept": len(given) == len(l) and all(g is fs[i - 1] for g, i in zip(given, l))})
    if all(0 < i for i in q):
        r, t, _ = rebuild(fs, q, tok)
        ev.append({"op": "rebuild", "q": q, "r": r, "t": t})
    q = [rng.randint(1, len(fs)) for _ in range(rng.randint(0, len(fs)))]
    q = list(dict.fromkeys(q))  # any list of distinct functions, ready or not
    r, t, _ = rebuild(fs, q, tok)
    ev.append({"op": "rebuild", "q": q, "r": r, "t": t})
    for _ in range(2):
        ev.append(part(rng, fs, rng.choice([q, list(range(1, len(fs) + 1))])))
    return {"base": list(bases), "what": [tok(what(f)) for f in fs], "ev": ev}


def run(ck):
    ck.model_check("FuncText", "CONSTANTS MaxF = %d MaxList = %d\nSPECIFICATION Spec\nINVARIANT Works CanWrite Same Idempotent\nPROPERTY Grows\nCHECK_DEADLOCK FALSE\n"
                   % ((4, 4) if ck.quick else (5, 5)), "every dependency graph and every list of its functions")
    tok = Intern()
    tr = []
    m = ck.budget(3, 4)
    for n in range(1, m + 1):
        for b in itertools.product(*[range(i + 1) for i in range(n)]):
            lists = [list(l) for k in range(0, 4) for l in itertools.product(range(1, n + 1), repeat=k)]
            tr.append(one(ck.rng, b, tok, lists))
    for _ in range(ck.budget(1500, 8000)):
        n = ck.rng.randint(1, 8)
        b = [0 if ck.rng.random() < 0.4 else ck.rng.randint(0, i) for i in range(n)]
        tr.append(one(ck.rng, b, tok, [[ck.rng.randint(1, n) for _ in range(ck.rng.randint(0, 8))] for _ in range(2)] + [ck.rng.sample(range(1, n + 1), n)]))
    tr += [damaged(ck.rng) for _ in range(ck.budget(250, 800))]
    ck.validate("FuncTextTrace", [t for t in tr if t["ev"]], what="recorded listings, rebuilds and model parts")
