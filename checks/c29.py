import contextlib, hashlib, io, logging, multiprocessing, os, random, shutil, tempfile, traceback
import numpy as np
from vlib import call, Intern, CaseTimeout
from diffpy.srmise import srmiselog
from diffpy.srmise.basefunction import BaseFunction
from diffpy.srmise.baselines.fromsequence import FromSequence
from diffpy.srmise.baselines.polynomial import Polynomial
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction
from diffpy.srmise.peakextraction import PeakExtraction
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.peaks.gaussian import Gaussian
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
from diffpy.srmise.peaks.terminationripples import TerminationRipples
from diffpy.srmise.peakstability import PeakStability

NOBJ = 3


# ---------------------------------------------------------------- as text
def arr(a):
    return None if a is None else [float(v).hex() for v in np.ravel(a)]


class Names:
    """Functions by kind, settings and base, numbered in order of appearance (so that sharing shows)."""

    def __init__(self):
        self.seen = []

    def __call__(self, f):
        if f is None:
            return None
        for i, g in enumerate(self.seen):
            if g is f:
                return i
        self.seen.append(f)
        own = {k: float(getattr(f, k)).hex() for k in ("maxwidth", "qmax", "extension", "supersample", "degree") if hasattr(f, k)}
        if isinstance(f, FromSequence):
            own["points"] = arr(f.actualize([], "internal").value(np.arange(1.0, 6.0, 0.3)))
        return [len(self.seen) - 1, type(f).__name__, sorted(own.items()), self(f.base)]

    def part(self, p):
        return [self(p.owner()), arr(p.pars), [bool(v) for v in p.free], bool(p.removable), bool(p.static_owner)]


def conf(p):
    n = Names()
    b = p.baseline
    return repr([type(p).__name__, [arr(v) for v in (p.x, p.y, p.dx, p.dy, p.effective_dy)], float(p.cres).hex(), [n(f) for f in p.pf],
                 None if b is None else n(b) if isinstance(b, BaseFunction) else n.part(b), p.error_method.__name__,
                 [n.part(q) for q in p.initial_peaks], arr(p.rng)] + [repr(getattr(p, k, None)) for k in ("nyquist", "scale")]
                + [float(getattr(p, k)).hex() for k in ("qmax", "supersample") if hasattr(p, k)])


def result(p):
    return None if p.extracted is None else repr([p.extraction_type, cluster(p.extracted)])


def cluster(c):
    n = Names()
    return [[n.part(q) for q in c.model], None if c.baseline is None else n.part(c.baseline), [n(f) for f in c.peak_funcs],
            [arr(v) for v in (c.r_data, c.y_data, c.y_error, c.r_cluster, c.y_cluster, c.error_cluster)], repr(c.slice), c.error_method.__name__]


def covtext(c):
    return None if c is None or c.cov is None else repr([arr(c.cov), np.shape(c.cov), [arr(m.pars) for m in c.model]])


# ---------------------------------------------------------------- shared things and settings
class Pool:
    """Data, functions, baselines and peaks, and a few settings that use them."""

    def __init__(self, seed):
        rng = self.rng = random.Random("pool %s" % seed)
        nr = np.random.RandomState(rng.randrange(2 ** 31))
        self.f, self.g = Gaussian(rng.choice([0.75, 1.5])), GaussianOverR(rng.choice([0.75, 1.5]))
        self.data = []
        for _ in range(2):
            n = rng.choice([12, 16, 20, 28])
            x = 1.0 + 0.125 * np.arange(n)
            ps = Peaks([rng.choice([self.f, self.g]).actualize([rng.uniform(1.2, x[-1] - 0.2), rng.uniform(0.25, 0.6), rng.uniform(0.5, 3)], "pwa") for _ in range(rng.randint(1, 3))])
            sd = rng.choice([0.02, 0.1])
            self.data.append([x, np.round(ps.value(x) + rng.choice([0, 0.5]) + sd * nr.randn(n), 4), 0.01 * np.ones(n), np.round(sd * nr.uniform(0.8, 2, n), 4)])
        self.parts = [Polynomial(0).actualize([0.0], "internal"), Polynomial(1).actualize([-0.125, 0.25], "internal", free=[rng.random() < 0.5, True]), Polynomial(-1).actualize([], "internal")]
        xs = np.linspace(0.5, 6, 8)
        self.parts.append(FromSequence(xs, np.round(0.25 + 0.125 * xs, 4)).actualize([], "internal"))
        self.ripple = TerminationRipples(self.f, 25.0)
        self.peaks = [rng.choice([self.f, self.g, self.g]).actualize([rng.uniform(1.2, 3.5), rng.uniform(0.3, 0.6), rng.uniform(0.2, 2)], "pwa", free=[rng.random() < 0.7 for _ in range(3)],
                                                             removable=rng.random() < 0.5) for _ in range(3)]
        # every peak function that was written is read as one of its own
        self.settings = [self.make() for _ in range(3)]

    def make(self):
        rng = self.rng
        d = rng.randrange(2)
        s = {"kind": rng.choice([PeakExtraction, PDFPeakExtraction, PDFPeakExtraction]), "data": d, "pf": rng.choice([[self.f], [self.g], [self.g], [self.f, self.g]]),
             "baseline": rng.choice(self.parts), "error_method": rng.choice([AIC, AIC, AICc]), "cres": rng.choice([0.125, 0.25, 0.5]),
             "rng": rng.choice([None, [1.25, float(self.data[d][0][-1])], [1.0, 2.5]]),
             "effective_dy": rng.choice([self.data[d][3], 0.125, 0.25]), "ip": rng.sample(self.peaks, rng.choice([0, 0, 1, 2]))}
        s["qmax"], s["nyquist"], s["scale"] = rng.choice([0.0, 5.0, 12.0, 30.0]), rng.random() < 0.5, rng.random() < 0.5
        return s

    def kwds(self, s):
        k = {v: s[v] for v in ("pf", "baseline", "error_method", "cres", "effective_dy")}
        k["rng"] = None if s["rng"] is None else list(s["rng"])
        k["initial_peaks"] = Peaks(list(s["ip"]))
        if s["kind"] is PDFPeakExtraction:
            k.update(qmax=s["qmax"], nyquist=s["nyquist"], supersample=4.0, scale=s["scale"])
        return k

    def new(self, s):
        p = s["kind"]()
        p.setdata(*self.data[s["data"]])
        p.setvars(quiet=True, **self.kwds(s))
        p.defaultvars()
        return p

    def text(self):
        n = Names()
        return repr([[arr(v) for v in d] for d in self.data] + [n.part(p) for p in self.parts + self.peaks] + [n(f) for f in (self.f, self.g, self.ripple)]
                    + [[(k, repr(v) if not isinstance(v, np.ndarray) else arr(v)) for k, v in s.items() if k not in ("kind", "data", "pf", "ip", "baseline", "error_method")] for s in self.settings]
                    + [[id(f) for f in s["pf"]] + [id(q) for q in s["ip"]] for s in self.settings])


KINDS = {PeakExtraction: ["extract_single", "extract_single", "fit_single"], PDFPeakExtraction: ["extract", "extract", "fit", "extract_single"]}


def perform(p, kind):
    """The operation on p: how it ended, its key and outcome as text."""
    key = kind + " " + conf(p)
    with contextlib.redirect_stdout(io.StringIO()):
        k, c = call(getattr(p, kind), timeout=200)
    return k, key, None if k != "ok" else repr([result(p), covtext(c)]), c


def fresh(seed):
    """What every operation on every setting gives when it is the first thing done."""
    out = []
    for i in range(3):
        for kind in sorted(set(KINDS[Pool(seed).settings[i]["kind"]])):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    p = Pool(seed)
                    k, key, o, _ = perform(p.new(p.settings[i]), kind)
                    with os.fdopen(w, "w") as f:
                        f.write(repr((key, o)))
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r) as f:
                t = f.read()
            os.waitpid(pid, 0)
            out.append(eval(t) if t else ("process", "ended"))
    return out


def surroundings():
    return repr([np.geterr(), np.random.get_state()[1][:4].tolist(), random.getstate()[1][:3], os.getcwd(), np.get_printoptions()["precision"]])


class fuse:
    """The n-th evaluation of a built-in peak fails."""

    def __init__(self, n, exc):
        self.n, self.exc, self.blown = n, exc, False

    def __enter__(self):
        self.old = {c: c.__dict__["_valueraw"] for c in (Gaussian, GaussianOverR)}

        def wrap(raw):
            def _valueraw(me, *a, **k):
                self.n -= 1
                if self.n == 0:
                    self.blown = True
                    raise self.exc("the fuse has blown")
                return raw(me, *a, **k)
            return _valueraw

        for c, raw in self.old.items():
            c._valueraw = wrap(raw)
        return self

    def __exit__(self, *a):
        for c, raw in self.old.items():
            c._valueraw = raw
        return False


# ---------------------------------------------------------------- histories
def one(seed, nops):
    first = fresh(seed)
    rng = random.Random("history %s" % seed)
    tok = Intern()
    pool = Pool(seed)
    own = tempfile.mkdtemp(prefix="c29-")
    objs = [pool.new(rng.choice(pool.settings)) for _ in range(NOBJ)]
    world = lambda: {"conf": [tok(conf(p)) for p in objs], "res": [0 if p.extracted is None else tok(result(p)) for p in objs], "tree": tok(pool.text() + surroundings())}
    tr = {"law": [[tok(a), tok(b)] for a, b in first], "w": world(), "ev": [], "note": {"seed": seed}}

    def emit(e):
        e["w"] = world()
        e.setdefault("law", [])
        tr["ev"].append(e)
        return e["w"]

    try:
        for _ in range(nops):
            o = rng.randrange(NOBJ)
            p = objs[o]
            op = rng.choice(["run"] * 5 + ["set", "new", "lend", "broken", "broken", "series", "load", "ask", "add", "work", "noise"])
            e = {"op": op, "o": o + 1}
            if op == "run":
                kind = rng.choice(KINDS[type(p)])
                k, key, out, _ = perform(p, kind)
                e.update(r="ok" if k == "ok" else "refused", kind=kind, law=[[tok(key), tok(out)]] if k == "ok" else [], out=tok(result(p)) if p.extracted is not None else 0, _note=str(_)[:200])
            elif op in ("set", "new", "lend"):
                e["op"] = "set"
                s = rng.choice(pool.settings)
                if op == "new" or s["kind"] is not type(p) or rng.random() < 0.5:
                    p = objs[o] = pool.new(s)
                elif rng.random() < 0.5:
                    p.clear()
                    p.setdata(*pool.data[s["data"]])
                    p.setvars(quiet=True, **pool.kwds(s))
                else:
                    p.setdata(*pool.data[s["data"]])
                    kw = pool.kwds(s)
                    if kw["rng"] is None:
                        kw["rng"] = [float(p.x[0]), float(p.x[-1])]
                    p.setvars(quiet=True, **kw)
                want = pool.new(s)
                if op == "lend":  # the peaks found for another object are where this one starts
                    q = objs[rng.randrange(NOBJ)]
                    if q is not p and q.extracted is not None:
                        p.setvars(initial_peaks=Peaks(list(q.extracted.model)))
                        want.setvars(initial_peaks=q.extracted.model.copy())
                e["c"] = tok(conf(want))
            elif op == "broken":
                kind = rng.choice(KINDS[type(p)])
                exc = rng.choice([KeyboardInterrupt, KeyboardInterrupt, ValueError, MemoryError, CaseTimeout])
                raised = False
                with fuse(int(2 ** rng.uniform(0, 11)), exc) as b, contextlib.redirect_stdout(io.StringIO()):
                    try:
                        getattr(p, kind)()
                    except BaseException:
                        raised = True
                e.update(raised=raised, kind=kind, blown=b.blown, exc=exc.__name__)
                if not b.blown:
                    if raised:
                        e.update(op="run", r="refused", out=0)
                    else:
                        e.update(op="run", r="ok", out=tok(result(p)) if p.extracted is not None else 0)
            elif op == "series":
                if not isinstance(p, PDFPeakExtraction):
                    continue
                es = [rng.choice([0.125, 0.25, 0.5]) for _ in range(rng.randint(1, 3))]
                s = PeakStability()
                s.setppe(p)
                cs, outs, law = [], [], []
                inner = p.extract

                def extract(*a, **k):
                    key = "extract " + conf(p)
                    c = inner(*a, **k)
                    cs.append(tok(conf(p)))
                    outs.append(tok(result(p)))
                    law.append([tok(key), tok(repr([result(p), covtext(c)]))])
                    return c

                p.extract = extract
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        k, v = call(s.run, es, timeout=400)
                finally:
                    del p.__dict__["extract"]
                e.update(r="ok" if k == "ok" and len(cs) == len(es) else "refused", cs=cs, outs=outs, law=law)
            elif op == "load":
                q = rng.randrange(NOBJ)
                if q == o:
                    continue
                fn = os.path.join(own, "saved")

                def through():
                    objs[q].write(fn)
                    t = type(objs[q])()
                    if rng.random() < 0.5:
                        t.read(fn)
                    else:
                        t.readstr(objs[q].writestr())
                    return t

                k, t = call(through)
                if k == "ok":
                    objs[o] = t
                    k, v = call(conf, t)
                e.update(p=q + 1, r="ok" if k == "ok" else "refused", _note=str(t)[:300])
                if k != "ok":
                    objs[o] = p
            elif op == "ask":
                x = p.x[rng.randint(1, 8)]
                key = "estimate %s %s %s" % (x, conf(p), result(p))
                k, v = call(p.estimate_peak, float(x), False, timeout=200)
                ok = k == "ok" or "ValueError" in v  # outside the range
                n = Names()
                e.update(r="ok" if ok else "refused", law=[[tok(key), tok(repr(n.part(v) if k == "ok" and v is not None else k))]])
            elif op == "add":
                if rng.random() < 0.5:
                    call(p.add_peaks, Peaks(rng.sample(pool.peaks, rng.randint(1, 2))).copy())
                else:
                    call(p.estimate_peak, float(p.x[rng.randint(1, 8)]), timeout=200)
            elif op == "work":
                e["op"] = "aside"
                if p.extracted is not None:
                    aside(rng, p, pool)
            else:
                e["op"] = "aside"
                noise(rng, own, pool, objs)
            emit(e)
    finally:
        shutil.rmtree(own, ignore_errors=True)
        srmiselog.tracer = srmiselog.TracePeaks()
        logging.getLogger("diffpy.srmise").setLevel(logging.CRITICAL)
    return tr


def aside(rng, p, pool):
    """Work on something made from the result of p."""
    kind = rng.choice(["copy", "cluster", "cluster", "text", "cov", "numbers"])
    c = p.extracted
    if kind == "text":
        call(lambda: (str(p), str(c), p.writesummary() if hasattr(p, "writesummary") else None, c.writestr()))
        return
    if kind == "numbers":
        call(lambda: (c.value(), c.residual(), c.quality(), c.plottable(), c.plottable(joined=True), c.npars(), [q.value(c.r_cluster) for q in c.model]))
        return
    if kind == "copy":
        m = c.copy()
    else:  # with copies of the peaks; the baseline, the data and the functions are the same
        m = ModelCluster(c.model.copy(), c.baseline if rng.random() < 0.5 else None, c.r_data, c.y_data, c.y_error, rng.choice([None, c.slice]), c.error_method, c.peak_funcs)
    for _ in range(rng.randint(1, 3)):
        what = rng.choice(["fit", "prune", "delete", "replace", "augment", "slice", "reduce", "poke"])
        if what == "fit":
            call(m.fit, rng.random() < 0.3, 0, False if m.baseline is c.baseline else rng.random() < 0.5, timeout=100)
        elif what == "prune":
            call(m.prune, timeout=100)
        elif what == "delete" and len(m.model):
            call(m.deletepeak, rng.randrange(len(m.model)))
        elif what == "replace":
            call(m.replacepeaks, Peaks(rng.sample(pool.peaks, 1)).copy())
        elif what == "augment":
            call(m.augment, c, timeout=100)
        elif what == "slice" and len(m.r_data) > 8:
            call(m.change_slice, slice(2, 8))
        elif what == "reduce":
            call(m.reduce_to, float(m.r_data[len(m.r_data) // 2]), 0.1, timeout=100)
        elif what == "poke" and len(m.model):
            m.model[0].pars[0] += 0.125
            m.model[0].free[0] = not m.model[0].free[0]


def noise(rng, own, pool, objs):
    """Something that concerns none of the objects."""
    k = rng.choice(["level", "trace", "trace", "filter", "other", "bad", "class"])
    log = logging.getLogger("diffpy.srmise")
    if k == "level":
        log.setLevel(rng.choice([logging.DEBUG, logging.INFO, logging.CRITICAL]))
    elif k == "trace":
        srmiselog.settracer(filebase=rng.choice([None, os.path.join(own, "t")]))
    elif k == "filter":
        call(srmiselog.tracer.reset_trace)
    elif k == "other":
        s = rng.choice(pool.settings)
        p = pool.new(s)
        perform(p, rng.choice(KINDS[type(p)]))
        if p.extracted is not None:
            for m in p.extracted.model:
                m.pars[:] = 0.5
        call(p.add_peaks, Peaks(list(pool.peaks[:1])).copy())
        call(p.clear)
    elif k == "bad":
        p = rng.choice([PeakExtraction, PDFPeakExtraction])()
        call(p.setdata, [1, 2, 3], [1, 2])
        call(p.setvars, nonsense=1)
        call(p.readstr, "nonsense")
        call(pool.f.actualize, [1.0], "pwa")
    else:
        p = PDFPeakExtraction()
        p.setdata(np.arange(1.0, 4.0, 0.25), np.ones(12))
        call(lambda: (p.extractvars.update(other=None), p.pf.append(pool.ripple), p.initial_peaks.append(pool.peaks[0].copy()), p.rng.append(3)))


def worker(a):
    logging.getLogger("diffpy.srmise").setLevel(logging.CRITICAL)
    call.late = 0
    try:
        return one(*a)
    except CaseTimeout as ex:
        return {"fail": repr(ex), "text": traceback.format_exc()[-3000:], "seed": a[0]}
    except Exception as ex:
        return {"fail": repr(ex), "text": traceback.format_exc()[-3000:], "seed": a[0]}


def run(ck):
    ck.model_check("Worlds", "CONSTANTS Objs = {1, 2} Confs = {1, 2} Outs = {1, 2} Depth = %d\nSPECIFICATION Spec\nINVARIANT Lawful\nPROPERTY Apart Allowed\nCHECK_DEADLOCK FALSE\n" % ck.budget(5, 7),
                   "two objects, two settings, every law, every history of few operations")
    jobs = [("%d-%d" % (ck.seed, i), ck.budget(14, 24)) for i in range(ck.budget(90, 700))]
    tr = []
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for t in pool.imap(worker, jobs):
            if "fail" in t:
                ck.violate("a history of several extractions ended with %s" % t["fail"], t)
            else:
                tr.append(t)
            if ck.left() < 120:
                break
        pool.terminate()
    ck.validate("WorldsTrace", tr, what="histories of three extractions with shared parts, each setting also run in a process of its own")
