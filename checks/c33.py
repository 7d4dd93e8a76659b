import contextlib, io, os, pickle, random
import numpy as np
from vlib import call, Intern
from fakes import IPeak, IBase
from c13 import Snap, cluster, data, fabricate, hurt, nums, peak, peakfuncs, snap, val, basefunc, baseline
from c13 import number
from diffpy.srmise import srmiselog
from diffpy.srmise.basefunction import BaseFunction
from diffpy.srmise.baselines.base import Baseline, BaselineFunction
from diffpy.srmise.dataclusters import DataClusters
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators import AIC, AICc
from diffpy.srmise.modelparts import ModelPart
from diffpy.srmise.multimodelselection import MultimodelSelection
from diffpy.srmise.pdfdataset import PDFDataSet
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peak, PeakFunction, Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peakstability import PeakStability

tok = Intern()
NONES = [tok(repr(None)), tok(repr("None"))]


def none(f=None):
    return {"f": f or {}, "refs": [], "what": [], "base": []}


def ev(op, r, now, disk, kept=True, whole=True, **k):
    kind, v = r
    return dict(op=op, r="done" if kind == "ok" else "refused" if v[0] != "TIMEOUT" else "TIMEOUT", mro=[] if kind == "ok" else list(v), now=now, disk=disk, kept=bool(kept), whole=whole, can=True, full=True, **k)


def sound(o):
    """what an object is; something else if it is none"""
    try:
        return snap(o, tok)
    except (AttributeError, TypeError, IndexError):
        return none({"unreadable": 1, "current": 0})


class Disk:
    """A few files; what each holds, but for the time it was written."""

    def __init__(self, tmp, n, gone=True):
        self.d = os.path.join(tmp, "disk%d" % Disk.n)
        Disk.n += 1
        os.makedirs(self.d)
        self.names = [os.path.join(self.d, "f%d" % i) for i in range(n)]
        if gone:
            self.names.append(os.path.join(self.d, "nowhere", "f"))

    def text(self, i):
        try:
            with open(self.names[i], "rb") as f:
                return f.read()
        except OSError:
            return None

    @staticmethod
    def plain(b):
        return b if b is None else b"\n".join(l for l in b.split(b"\n") if not l.startswith(b"History written"))

    def __call__(self):
        return [tok(repr(self.plain(self.text(i)))) for i in range(len(self.names))]

    def there(self, i):
        return os.path.isdir(os.path.dirname(self.names[i]))


Disk.n = 0


# ---------------------------------------------------------------- extraction: data, settings, files
def worth(k, v):
    """tokens of the settings as c13.snap gives them"""
    s = Snap(tok)
    if k in ("effective_dy", "dg"):
        s.put("effective_dy", nums(v))
    elif k == "rng":
        s.put("range", [val(t) for t in v])
    elif k == "cres":
        s.put("cres", float("%g" % v))
    elif k == "error_method":
        s.put("evaluator", v.__name__)
    elif k == "pf":
        s.funcs("peak functions", v)
    elif k == "initial_peaks":
        s.parts("initial peaks", v)
    elif k == "baseline":
        s.baseline("baseline", v)
    else:
        s.put(k, val(v))
    return s.f


def settings(rng, o, kind):
    pfs, n = peakfuncs(rng), len(o.x)
    x = o.x
    kw = {}
    every = ["effective_dy", "rng", "pf", "initial_peaks", "baseline", "cres", "error_method"] + (["qmax", "nyquist", "scale", "supersample", "dg", "qmax"] if kind == "pdf" else [])
    for k in rng.sample(every, rng.randint(0, 4)):
        kw[k] = {"effective_dy": lambda: np.array([abs(number(rng)) for _ in x]), "dg": lambda: np.array([abs(number(rng)) for _ in x]), "rng": lambda: [float(x[0]), rng.choice([2.5, float(x[-1])])],
                 "pf": lambda: rng.sample(pfs, rng.randint(1, len(pfs))), "initial_peaks": lambda: Peaks([peak(rng, rng.choice(pfs)) for _ in range(rng.randint(0, 2))]),
                 "baseline": lambda: baseline(rng, basefunc(rng)), "cres": lambda: abs(number(rng)), "error_method": lambda: rng.choice([AIC, AICc]), "qmax": lambda: rng.choice([0.0, 20.0, 17.5, "automatic"]),
                 "nyquist": lambda: rng.random() < 0.5, "scale": lambda: rng.random() < 0.5, "supersample": lambda: rng.choice([1.0, 4, 2.5, 0.5, 0.99])}[k]()
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        kw[rng.choice(["supersampling", "Qmax", "range", "x", "peaks", "dy", ""] + ([] if kind == "pdf" else ["qmax", "nyquist", "dg", "scale"]))] = rng.choice([1.0, None, "a"])
    if "dg" in kw and rng.random() < 0.4:  # both names of one setting, whatever they are given
        kw["effective_dy"] = rng.choice([None, np.array([1.0 for _ in x])])
        if rng.random() < 0.3:
            kw["dg"] = None
    kw = list(kw.items())
    rng.shuffle(kw)
    return dict(kw)


def extraction(rng, tmp):
    kind = rng.choice(["plain", "pdf", "pdf"])
    o = None
    while o is None:
        o = fabricate(rng, kind)
    dk = Disk(tmp, 3)
    good = [None] * len(dk.names)  # what a good file holds
    out = []
    now = lambda: sound(o)
    start = {"o": now(), "disk": dk()}
    pdffile = [os.path.join(dk.d, "pdf%d" % i) for i in range(4)]
    px = [round(0.5 + 0.25 * i, 4) for i in range(rng.randint(5, 30))]
    py = [round(rng.uniform(-4, 4), 2) for _ in px]
    for name, body in zip(pdffile[:3], ["# qmax = 20.5\n#### start data\n" + "".join("%r %r\n" % t for t in zip(px, py)),
                                        "#### start data\n" + "".join("%r %r\n" % t for t in zip(px, py)) + rng.choice(["3.0\n", "a b\n", "9.0 x 1\n"]), rng.choice(["", "nothing\nof use\n"])]):
        with open(name, "w") as f:
            f.write(body)
    with open(pdffile[3], "wb") as f:
        f.write(b"1.0 2.0\n\xff\xfe 3.0\n")
    for _ in range(rng.randint(3, 9)):
        op = rng.choice(["data", "data", "set", "set", "load", "read", "read", "write", "write"])
        if op == "data":
            x, y = data(rng)
            short = lambda v, p=0.12: v[: len(v) - 1] if rng.random() < p else np.append(v, 1.0) if rng.random() < p / 2 else v
            y = short(y)
            dx, dy = [rng.choice([None, short(np.array([abs(number(rng)) for _ in x]), 0.3)]) for _ in range(2)]
            given = [None if v is None else v.copy() for v in (x, y, dx, dy)]
            r = call(o.setdata, *rng.choice([(x, y, dx, dy)]))
            want = {"x": nums(x), "y": nums(y), "dx": nums(dx) if dx is not None else nums(np.zeros(len(x))), "dy": nums(dy) if dy is not None else nums(np.zeros(len(x)))}
            want = {k: tok(repr(v)) for k, v in want.items()}
            if kind == "pdf":
                want["qmax_fromdata"] = -1
            out.append(ev(op, r, now(), dk(), kept=all((a is None and b is None) or np.array_equal(a, b) for a, b in zip(given, (x, y, dx, dy))), want=want,
                          nx=len(x), ny=len(y), ndx=-1 if dx is None else len(dx), ndy=-1 if dy is None else len(dy)))
        elif op == "set":
            if o.x is None:
                continue
            kw = settings(rng, o, kind)
            g = [o.x[i] if v is None else v for i, v in zip((0, -1), kw.get("rng", o.rng) or (None, None))]
            if not any(g[0] <= v <= g[1] for v in o.x):  # nothing to extract from
                continue
            want = {}
            if not set(kw) - {"effective_dy", "rng", "pf", "initial_peaks", "baseline", "cres", "error_method"} - ({"dg", "qmax", "nyquist", "scale", "supersample"} if kind == "pdf" else set()):
                for k, v in kw.items():
                    want.update({"qmax": -1} if isinstance(v, str) else worth(k, v))
            sup = kw.get("supersample", -1)
            before = {k: id(v) for k, v in kw.items()}
            nones = NONES + [tok(repr("function"))] + ([now()["f"]["range"]] if o.rng is not None and None in list(o.rng) else [])
            r = call(o.setvars, **dict({"quiet": True} if rng.random() < 0.7 else {}, **kw))
            out.append(ev(op, r, now(), dk(), kept=before == {k: id(v) for k, v in kw.items()}, want=want, names=list(kw), kind=kind, auto=kw.get("qmax") == "automatic", nones=nones,
                          super=-1 if not isinstance(sup, (int, float)) or sup == -1 else int(1000 * sup)))
        elif op == "load" and kind == "pdf":
            i = rng.choice([0, 0, 1, 2, 3, 4, 5])
            name = (pdffile + [os.path.join(dk.d, "missing.gr"), dk.d])[i]
            r = call(o.loadpdf, name)
            blank = snap(PDFPeakExtraction(), tok)["f"]
            want = dict(blank, x=tok(repr(nums(px))), y=tok(repr(nums(py))), dx=tok(repr(nums(np.zeros(len(px))))), dy=tok(repr(nums(np.zeros(len(px))))), qmax_reportedbypdf=tok(repr(val(20.5))),
                        filename=tok(repr(val(os.path.abspath(pdffile[0])))), qmax_fromdata=-1)
            e = ev(op, r, now(), dk())
            e["can"] = i == 0
            if e["can"]:
                e["full"] = e["now"]["f"].keys() == blank.keys() and all(v == -1 or e["now"]["f"][k] == v for k, v in want.items())
            out.append(e)
        elif op == "write":
            i = rng.randrange(len(dk.names))
            odd = rng.random() < 0.35
            lens = {len(v) for v in (o.x, o.y, o.dx, o.dy, o.effective_dy) if v is not None}
            first = [v for v in (o.x, o.y, o.dx, o.dy, o.effective_dy) if v is not None]
            if odd:
                keep, o.cres = o.cres, "fine"
            ok = len(lens) <= 1 and not odd and dk.there(i)
            if len(lens) > 1 and all(len(v) >= len(first[-1]) for v in first):
                ok = None  # too long is cut; not said to be refused
            k, t = call(o.writestr)
            r = call(o.write, dk.names[i])
            if odd:
                o.cres = keep
            text = tok(repr(dk.plain(t.encode()))) if k == "ok" else 0
            if ok is None:
                ok = k == "ok" and dk.there(i)
            e = ev(op, r, now(), dk(), slot=i + 1, text=text)
            e["can"] = ok
            if r[0] == "ok" and ok:
                good[i] = now() if len(lens) <= 1 else None
            elif r[0] == "ok":
                good[i] = None
            out.append(e)
        elif op == "read":
            i = rng.randrange(len(dk.names))
            t = dk.text(i)
            if t is not None and good[i] is None:
                continue
            bad = t is None
            name = dk.names[i]
            if t is not None and rng.random() < 0.6:
                d = hurt(rng, t.decode(), kind)
                if d is None:
                    continue
                bad, t = True, d[1].encode()
                name = os.path.join(dk.d, "hurt")
                with open(name, "wb") as f:
                    f.write(t)
            q = call(o.readstr, t.decode()) if t is not None and rng.random() < 0.4 else call(o.read, name)
            e = ev(op, q, now(), dk(), p=good[i] if not bad else none())
            e["can"] = not bad
            out.append(e)
        if out and (out[-1]["r"] == "TIMEOUT"):
            break
    return dict(start, ev=out, note=kind)


# ---------------------------------------------------------------- model parts
def part(rng, tmp):
    owners = [IPeak(rng.randint(1, 4)) for _ in range(3)] + [IPeak(2)]
    own = lambda f: [i for i, g in enumerate(owners) if g is f][0] + 1
    show = lambda p: {"pars": [int(v) for v in p.pars], "free": [bool(v) for v in p.free], "static": bool(p.static_owner), "owner": own(p.owner()), "removable": bool(p.removable)}
    f = rng.choice(owners)
    p = Peak(f, [rng.randint(-9, 9) for _ in range(f.npars)], [rng.random() < 0.6 for _ in range(f.npars)], rng.random() < 0.5, rng.random() < 0.4)
    start = {"o": show(p), "disk": []}
    out = []
    for _ in range(rng.randint(4, 12)):
        op = rng.choice(["make", "update", "update", "owner", "owner", "item"])
        near = lambda n: max(0, n + rng.choice([0, 0, 0, 1, -1]))
        if op == "make":
            f = rng.choice(owners)
            pars = [rng.randint(-9, 9) for _ in range(near(f.npars))]
            free = rng.choice([None, [rng.random() < 0.5 for _ in range(near(f.npars))]])
            rem, sta = rng.random() < 0.5, rng.random() < 0.4
            keep = (list(pars), None if free is None else list(free))
            r = call(rng.choice([Peak, Peak, ModelPart]), f, pars, free, rem, sta)
            if r[0] == "ok":
                p = r[1]
            out.append(ev(op, r, show(p), [], whole=False, kept=keep == (pars, free), n=f.npars, np=len(pars), nf=-1 if free is None else len(free),
                          given={"pars": pars, "free": [True] * len(pars) if free is None else free, "static": sta, "owner": own(f), "removable": rem}))
        elif op == "update":
            q = [rng.randint(-9, 9) for _ in range(max(0, sum(p.free) + rng.choice([0, 0, 1, 3, -1, -1, -2])))]
            a = rng.choice([list, np.array])(q)
            r = call(p.update, a)
            e = ev(op, r, show(p), [], whole=False, kept=[int(z) for z in a] == q, q=q)
            if r[0] == "ok":
                e["kept"] = bool(e["kept"] and r[1] == sum(p.free))
            out.append(e)
        elif op == "owner":
            f = rng.choice(owners)
            r = call(p.changeowner, f)
            out.append(ev(op, r, show(p), [], whole=False, to=own(f), n=f.npars))
        else:
            d = p.owner().parameterdict
            k = rng.choice(list(d) + list(range(len(d))) + ["nonesuch", len(d), "position "])
            v = rng.random() < 0.5
            r = call(p.setfree, k, v)
            out.append(ev(op, r, show(p), [], whole=False, k=d[k] + 1 if k in d else k + 1 if isinstance(k, int) and k < len(d) else 0, v=v))
    return dict(start, ev=out, note="part")


# ---------------------------------------------------------------- clustering, switches, declarations
def points(rng, tmp):
    show = lambda c: {"n": len(c.x), "res": int(round(1000 * c.res)), "rest": tok(repr([list(map(float, c.x)), list(map(float, c.y)), c.clusters.tolist(), c.data_order.tolist(), c.current_idx, c.lastpoint_idx, c.lastcluster_idx, c.status]))}
    x = np.arange(float(rng.randint(2, 9)))
    c = DataClusters(x, np.array([rng.random() for _ in x]), 1.0)
    start = {"o": show(c), "disk": []}
    out = []
    for _ in range(rng.randint(2, 6)):
        for _ in range(rng.randint(0, 3)):
            if call(next, c)[0] != "ok":
                break
        x = np.arange(float(rng.randint(1, 9)))
        y = np.array([rng.random() for _ in range(max(0, len(x) + rng.choice([0, 0, 0, 1, -1])))])
        res = rng.choice([0.0, 0.5, 2.0, 1.25, -0.5, -0.001])
        before = show(c)
        keep = (x.tolist(), y.tolist())
        if out:
            out.append({"op": "damage", "now": before, "disk": []})
        r = call(DataClusters, x, y, res)
        if r[0] == "ok":
            c = r[1]
        if not out:
            start["o"] = before
        out.append(ev("points", r, show(c), [], whole=False, kept=keep == (x.tolist(), y.tolist()), nx=len(x), ny=len(y), res=int(round(1000 * res))))
    return dict(start, ev=out, note="points")


def switches(rng, tmp):
    show = lambda: {"plots": bool(srmiselog.liveplots), "wait": bool(srmiselog.wait)}
    srmiselog.liveplotting(False)
    start = {"o": show(), "disk": []}
    out = []
    for _ in range(rng.randint(2, 6)):
        a = [rng.choice([True, False, True, False, 1, 0, None, "yes", "False"]) for _ in range(2)]
        r = call(srmiselog.liveplotting, *a)
        out.append(ev("switch", r, show(), [], whole=False, yes=[v is True or v is False for v in a], given={"plots": a[0] is True, "wait": a[1] is True}))
    srmiselog.liveplotting(False)
    return dict(start, ev=out, note="switches")


def steps(rng, tmp):
    """steps of a trace written over earlier ones"""
    dk = Disk(tmp, 2, False)
    t = srmiselog.TracePeaks()
    base = os.path.join(dk.d, "step")
    dk.names = [base + "_1", base + "_2"]
    t.filebase = base
    start = {"o": none(), "disk": dk()}
    out = []
    pfs = peakfuncs(rng)
    for _ in range(rng.randint(2, 5)):
        x, y = data(rng)
        i = rng.randint(1, 2)
        bad = rng.random() < 0.4
        d = {"counter": i, "recursion": rng.randint(0, 2), "clusters": [[1.0, 2.0]], "mc": cluster(rng, x, y, pfs, None, [])}
        if bad:
            d["mc"] = rng.choice([None, 3])
        k, s = call(t.writestr, d)
        r = call(t.write, d)
        e = ev("write", r, none(), dk(), slot=i, text=tok(repr(s.encode())) if k == "ok" else 0)
        e["can"] = not bad
        out.append(e)
    return dict(start, ev=out, note="steps")


def declare(rng, tmp):
    n = rng.randint(0, 4)
    names = rng.sample(["position", "width", "area", "a", "b", "c"], n)
    if rng.random() < 0.5 and n and "position" not in names:
        names[0] = "position"
    text = [True] * n
    if n and rng.random() < 0.25:
        i = rng.randrange(n)
        names[i], text[i] = rng.choice([0, 1.5, ("a",), None]), False
    places = list(range(n))
    rng.shuffle(places)
    if n and rng.random() < 0.3:
        places[rng.randrange(n)] = rng.choice([0, n, n - 1, 7, -1])
    formats = rng.sample(["internal", "pwa", "mu_sigma_area", "x"], rng.randint(1, 3))
    pick = lambda: rng.choice(formats + formats + formats + ["other"])
    df = {"default_input": pick(), "default_output": pick()}
    more = []
    if rng.random() < 0.2:
        df["default_" + rng.choice(["extra", "third"])] = pick()
        more = [v for k, v in df.items() if k not in ("default_input", "default_output")]
    for k in ("default_input", "default_output"):
        if rng.random() < 0.12:
            del df[k]
    cls = rng.choice([BaseFunction, PeakFunction, PeakFunction, BaselineFunction])
    d = dict(zip(names, places))
    keep = (dict(d), list(formats), dict(df))
    r = call(cls, d, formats, df, {}, None)
    e = ev("declare", r, none(), [], kept=keep == (d, formats, df), text=text, places=places, formats=formats, input=df.get("default_input", "absent"), output=df.get("default_output", "absent"), more=more,
           peak=cls is PeakFunction, position="position" in names)
    if r[0] == "ok":
        f = r[1]
        e["full"] = f.npars == n and f.parameterdict == d and list(f.parformats) == formats and f.default_formats == df and f.base is None
    return {"o": none(), "disk": [], "ev": [e], "note": "declare"}


# ---------------------------------------------------------------- data sets, series, tables
GOOD = ["#### start data\n1.0 2.0\n2.0 3.5 0.1 0.2\n", "qmax=21.5 X-ray\n# note\n0.5 -1\n1.0 2 1 1\n1.5 3 1 1\n", "##### PDFgetN\nqdamp = 0.02\ntemp = 300\n#### start data\n1 1\n"]
WORSE = ["", "nothing here\n", "#### start data\n1.0 2.0\n2.0\n", "#### start data\n1.0 2.0 0.5 0.5\nend of file\n", "qmax=9.5\n# metadata\na=3\n#### start data\n", "1.0 2.0\n1.5 x\n"]


def dataset(rng, tmp):
    dk = Disk(tmp, 1, False)
    d = PDFDataSet("d")
    show = lambda: none({"all": tok(repr(sorted((k, repr(v)) for k, v in vars(d).items())))})
    start = {"o": show(), "disk": dk()}
    out = []
    for _ in range(rng.randint(2, 6)):
        good = rng.random() < 0.5
        t = rng.choice(GOOD if good else WORSE).encode()
        if not good and rng.random() < 0.15:
            t = b"1.0 2.0\n\xff\n"
        with open(dk.names[0], "wb") as f:
            f.write(t)
        out.append({"op": "damage", "now": show(), "disk": dk()})
        missing = rng.random() < 0.1
        if rng.random() < 0.5 and b"\xff" not in t and not missing:
            r = call(d.readStr, t.decode())
        else:
            r = call(d.read, dk.names[0] + ("x" if missing else ""))
        e = ev("dataset", r, show(), dk())
        e["can"] = good and not missing
        e["full"] = len(d.robs) == len(d.Gobs) == len(d.drobs) == len(d.dGobs) == t.decode("latin1").strip().split("\n").__len__() - len([l for l in t.decode("latin1").strip().split("\n") if not l[0].isdigit()]) if e["can"] else True
        out.append(e)
        if rng.random() < 0.4:
            a, v = rng.choice([("qdamp", 0.5), ("dscale", "2"), ("qbroad", "x"), ("nonesuch", 1.0), ("robs", 1.0)])
            ok = a in ("qdamp", "dscale", "qbroad") and v != "x"
            r = call(d.setvar, a, v)
            e = ev("setvar", r, show(), dk())
            e["can"], e["full"] = ok, ok and float(getattr(d, a)) == float(v)
            out.append(e)
    return dict(start, ev=out, note="dataset")


def series(rng, tmp):
    dk = Disk(tmp, 2)
    s = PeakStability()
    pfs = [Gaussian(1.5)]

    def fill():
        o = PDFPeakExtraction()
        x = np.arange(1.0, 5.05, 0.25)
        o.setdata(x, np.array([round(rng.uniform(-3, 3), 2) for _ in x]))
        o.setvars(quiet=True, pf=pfs, rng=[1.0, 5.0], effective_dy=np.ones(len(x)), cres=0.5, qmax=0.0, baseline=baseline(rng, basefunc(rng)))
        s.setppe(o)
        s.results = [[float(i + 1), Peaks([peak(rng, rng.choice(pfs)) for _ in range(rng.randint(0, 2))]), None, rng.choice([0.25, 0.5])] for i in range(rng.randint(0, 4))]
        s.current = None
        o.clearcalc()

    def ext(c):
        if c is None:
            return None
        z = Snap(tok)
        z.cluster(c)
        return sorted(z.f.items())

    def held(i):
        e, m, bl, dr = s.results[i]
        return repr([float(e), [([float(v) for v in p.pars], list(map(bool, p.free))) for p in m], None if bl is None else [float(v) for v in bl.pars], dr])

    def show():
        o = s.ppe
        f = dict(sound(o)["f"])
        for k in list(f):
            if k.startswith("extracted "):
                del f[k]
        f["extracted"] = tok(repr(ext(o.extracted))) if "unreadable" not in f else 0
        f["results"] = tok(repr([held(i) for i in range(len(s.results))]))
        f["current"] = 99 if s.current is None else 100 + s.current
        return none(f)

    fill()
    start = {"o": show(), "disk": dk()}
    good = [None] * len(dk.names)
    out = []
    for _ in range(rng.randint(3, 8)):
        op = rng.choice(["pick", "pick", "save", "save", "open", "open", "refill"])
        if op == "refill":
            fill()
            out.append({"op": "damage", "now": show(), "disk": dk()})
        elif op == "pick":
            i, n = rng.randint(-1, 5), len(s.results)
            if -n <= i < 0:
                continue
            m = [repr(p.pars) for p in s.results[i][1]] if 0 <= i < n else []
            r = call(s.setcurrent, i)
            e = ev(op, r, show(), dk(), i=i, n=n, want={"current": 100 + i, "extracted": -1, "effective_dy": -1})
            if r[0] == "ok" and 0 <= i < n:
                e["want"]["effective_dy"] = tok(repr(nums(s.results[i][0] * np.ones(len(s.ppe.x)))))
                e["kept"] = [repr(p.pars) for p in s.ppe.extracted.model] == m
            out.append(e)
        elif op == "save":
            i = rng.randrange(len(dk.names))
            odd = rng.choice([None, None, "function", "settings"])
            own = [p.owner() for q in s.results for p in q[1]]
            if odd == "function" and own:
                own[0].hook = lambda: 0
            elif odd == "settings":
                keep, s.ppe.cres = s.ppe.cres, "fine"
            else:
                odd = None
            r = call(s.save, dk.names[i])
            if odd == "function":
                del own[0].hook
            elif odd:
                s.ppe.cres = keep
            e = ev(op, r, show(), dk(), slot=i + 1, text=0)
            e["can"] = odd is None and dk.there(i)
            if e["can"]:
                good[i] = [held(j) for j in range(len(s.results))]
                e["text"] = e["disk"][i] if r[0] == "ok" else 0
                e["kept"] = r[0] != "ok" or len(pickle.loads(dk.text(i))[0]) == len(s.results)
            out.append(e)
        else:
            i = rng.randrange(len(dk.names))
            t = dk.text(i)
            name, can = dk.names[i], t is not None and good[i] is not None
            if t is not None and not can:
                continue
            if can and rng.random() < 0.6:
                k, v = call(pickle.loads, t)
                if k != "ok":  # no longer what was written: told elsewhere
                    break
                res, st = v
                how = rng.choice(["cut", "settings", "shape", "garbage", "text"])
                if how == "text":
                    d = hurt(rng, st, "pdf")
                    if d is None:
                        continue
                    st = d[1]
                t = {"cut": t[: rng.randrange(len(t))], "settings": pickle.dumps([res, "damaged"]), "shape": pickle.dumps(rng.choice([3, [res], [res, st, 1]])), "garbage": b"#" + t, "text": pickle.dumps([res, st])}[how]
                name, can = os.path.join(dk.d, "hurt"), False
                with open(name, "wb") as f:
                    f.write(t)
            r = call(s.load, name)
            e = ev("open", r, show(), dk())
            e["can"], e["full"] = can, not can or [held(j) for j in range(len(s.results))] == good[i]
            out.append(e)
    return dict(start, ev=out, note="series")


def tables(rng, tmp):
    dk = Disk(tmp, 1, False)
    m = MultimodelSelection()
    o = PDFPeakExtraction()
    x = np.arange(1.0, 4.0, 0.25)
    o.setdata(x, np.sin(3 * x))
    g = Gaussian(1.0)
    o.setvars(quiet=True, qmax=0.0, pf=[g], effective_dy=np.ones(len(x)))
    m.setppe(o)
    m.results = [[1.0, Peaks([g.actualize([2.0 + 0.1 * i, 0.4, 1.0 + i], "internal")]), None, 0.25] for i in range(rng.randint(1, 3))]
    quiet = lambda f, *a: (lambda r: r)(_quiet(f, *a))
    quiet(m.makeaics, rng.sample([1.0, 2.0, 4.0], rng.randint(1, 3)), 0.25)
    if rng.random() < 0.6:
        quiet(m.classify, x, 0.1)
    pairs = lambda d, g: sorted((float(a), [g(v) for v in b]) for a, b in d.items())

    def show():
        try:
            return none({k: tok(repr(v)) for k, v in (("dgs", list(map(float, m.dgs))), ("idx", sorted((float(a), b) for a, b in m.dgs_idx.items())), ("aics", pairs(m.aics, lambda v: float(v.stat))),
                                                       ("probs", pairs(m.aicprobs, float)), ("weights", pairs(m.aicweights, float)), ("sorted", pairs(m.sortedprobs, int)),
                                                       ("classes", [list(map(int, c)) for c in m.classes]), ("class probs", pairs(m.classprobs, float)))})
        except (AttributeError, TypeError):
            return none({"unreadable": 1})

    start = {"o": show(), "disk": dk()}
    out = []
    for _ in range(rng.randint(2, 4)):
        t = {d: [rng.uniform(3, 30) for _ in m.results] for d in rng.sample([1.0, 2.0, 3.0, 8.0], rng.randint(1, 4))}
        how = rng.choice(["good", "good", "cut", "list", "number", "text", "hole", "none"])
        b = pickle.dumps({"list": [1.0, 2.0], "number": 3.5, "text": "abc", "hole": dict(list(t.items()) + [(16.0, None)]), "none": None}.get(how, t))
        if how == "cut":
            b = b[: rng.randrange(len(b))]
        with open(dk.names[0], "wb") as f:
            f.write(b)
        out.append({"op": "damage", "now": show(), "disk": dk()})
        r = quiet(m.loadaics, dk.names[0] + ("x" if rng.random() < 0.1 else ""))
        missing = r[0] == "err" and "FileNotFoundError" in r[1]
        e = ev("open", r, show(), dk())
        e["can"] = how == "good" and not missing
        e["full"] = not e["can"] or {float(d): [float(v.stat) for v in a] for d, a in m.aics.items()} == t and list(map(float, m.dgs)) == sorted(t)
        out.append(e)
    return dict(start, ev=out, note="tables")


def _quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return call(f, *a)


def run(ck):
    ck.model_check("Whole", "CONSTANTS Names = {\"a\", \"b\"%s} Vals = {0, 1, 2} Files = {1%s} Nonsense = {\"z\"}\nSPECIFICATION Spec\nINVARIANT AllOrNothing SavedReads\nCHECK_DEADLOCK FALSE\n"
                   % (("", "") if ck.quick else (", \"c\"", "")), "requests carried out step by step: all or nothing")
    n = ck.budget(1, 8)
    tr = []
    for f, c in ((extraction, 900), (part, 500), (points, 200), (switches, 60), (steps, 60), (declare, 600), (dataset, 300), (series, 250), (tables, 100)):
        for _ in range(c * n):
            tr.append(f(ck.rng, ck.tmp))
    ck.notes["refused"] = sum(e.get("r") == "refused" for t in tr for e in t["ev"])
    ck.notes["done"] = sum(e.get("r") == "done" for t in tr for e in t["ev"])
    ck.validate("WholeTrace", tr, what="recorded histories of what can and cannot be done")
