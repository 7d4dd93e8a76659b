import contextlib
import io
import math
import os
import numpy as np
from vlib import call, fx
from fakes import Hat, IPeak, IBase
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.modelevaluators.aicc import AICc
from diffpy.srmise.multimodelselection import MultimodelSelection
from diffpy.srmise.peaks.base import Peaks

CRIT = {"AIC": AIC, "AICc": AICc}
U = 10 ** 3
HAT, ONE = Hat(), IPeak(1)
BL = {n: IBase(n) for n in (0, 1, 2)}


class Ppe:
    """What multimodel selection uses of an extraction."""

    def __init__(self, r, y, em):
        self.r, self.y, self.error_method, self.pf = r, y, em, [HAT]

    def resampledata(self, dr, **kwds):
        return self.r, self.y, dr, np.ones(len(self.r))


def lg(v):
    return fx(math.log(v), 1000) if v > 0 else -2000000


class Driver:
    def __init__(self, rng, tmp):
        self.rng, self.tmp = rng, tmp
        self.n = rng.randint(5, 9)
        self.r = np.arange(self.n, dtype=float)
        self.crit = rng.choice(["AIC", "AIC", "AICc"])
        self.pos = sorted(rng.sample(range(self.n), rng.randint(1, 3)))
        self.y = np.array([float(v) for v in sum((2 * np.maximum(0, 3 - np.abs(self.r - p)) for p in self.pos), 0 * self.r)])
        self.y += [rng.randint(-1, 1) for _ in range(self.n)]
        self.ms = self.fresh()
        self.ms.results = []

    def fresh(self):
        m = MultimodelSelection()
        m.setppe(Ppe(self.r, self.y, CRIT[self.crit]))
        return m

    def add(self):
        rng = self.rng
        if self.ms.results and rng.random() < 0.3:
            old = rng.choice(self.ms.results)
            pk, bl = old[1].copy(), old[2].copy()
            if len(pk) and rng.random() < 0.7:
                pk[rng.randrange(len(pk))].free[:] = [rng.random() < 0.5 for _ in range(2)] if len(pk[0].pars) == 2 and all(len(p.pars) == 2 for p in pk) else True
        else:
            pk = Peaks([])
            for p in self.pos:
                if rng.random() < 0.8:
                    pk.append(HAT.actualize([p + rng.choice([0, 0, 0, 1, -1]), rng.choice([1, 2, 2, 2, 3, -2])], "internal", free=[rng.random() < 0.7 for _ in range(2)]))
            if rng.random() < 0.08:
                pk.append(ONE.actualize([rng.randint(0, 1)], "internal", free=[True]))
            k = rng.choice([0, 0, 1, 1, 2])
            bl = BL[k].actualize([rng.choice([0, 0, 1]) for _ in range(k)], "internal", free=[rng.random() < 0.7 for _ in range(k)])
            if k == 2 and rng.random() < 0.6:  # seen from one end or the other: the same sum of squares
                bl.pars[:] = rng.choice([[0, 1], [self.n - 1, -1]])
        self.ms.results.append([rng.choice([1.0, 2.0]), pk, bl, 1.0])

    def mj(self):
        out = []
        for _, pk, bl, _ in self.ms.results:
            sq = lambda p: int(np.sum(p.value(self.r) ** 2))
            v = (pk.value(self.r) if len(pk) else 0 * self.r) + bl.value(self.r)
            out.append({"peaks": [{"np": len(p.pars), "sq": sq(p)} for p in pk], "bl": {"np": len(bl.pars), "sq": sq(bl)},
                        "k": int(sum(sum(p.free) for p in pk)), "kbl": int(sum(bl.free)), "chi": int(np.sum((self.y - v) ** 2))})
        return out

    def snap(self):
        return [(e, [(list(p.pars), list(p.free)) for p in pk], list(bl.pars), dr) for e, pk, bl, dr in self.ms.results]

    def tables(self):
        m, z = self.ms, [float(d) for d in self.ms.dgs]
        idx = getattr(m, "dgs_idx", None)
        return {"keys": [sorted(float(d) for d in t) for t in (m.aics, m.aicprobs, m.aicweights, m.sortedprobs)] == [sorted(z)] * 4,
                "idx": list(range(1, len(z) + 1)) if idx is None else [idx.get(d, -1) + 1 for d in m.dgs] + [0] * (len(idx) - len(z)),
                "g": [int(16 / d ** 2) for d in z], "dgs": [int(1000 * d) for d in z],
                "stat": [[fx(a.stat, U) for a in m.aics[d]] for d in z], "lp": [[lg(p) for p in m.aicprobs[d]] for d in z],
                "lw": [[lg(p) for p in m.aicweights[d]] for d in z],
                "sum": [fx(float(sum(m.aicprobs[d])), 10 ** 6) for d in z], "sp": [[i + 1 for i in m.sortedprobs[d]] for d in z]}


def trace(rng, tmp):
    d = Driver(rng, tmp)
    evs = []
    fn = os.path.join(tmp, "aics.pickle")

    def do(f, *a, **k):
        s = d.snap()
        with contextlib.redirect_stdout(io.StringIO()):
            kk, v = call(f, *a, **k)
        if kk != "ok":
            raise AssertionError("%s%r %r failed: %s" % (f.__name__, a, k, v))
        return v, s == d.snap()

    for _ in range(rng.randint(1, 3)):
        for _ in range(rng.randint(1, 4)):
            d.add()
        dgs = rng.sample([1.0, 2.0, 4.0, 0.5], rng.randint(1, 4))
        if rng.random() < 0.6:
            dgs.sort()
        save = rng.random() < 0.4
        _, kept = do(d.ms.makeaics, dgs, 1.0, fn if save else None)
        mj = d.mj()
        evs.append(dict(op="aics", kept=kept, ms=mj, **d.tables()))
        if max(max(r) - min(r) for r in evs[-1]["stat"]) > 1300 * U or max(max(r) for r in evs[-1]["stat"]) > 4000 * U:
            evs.pop()
            break
        if save:
            if rng.random() < 0.5:
                old, d.ms = d.ms, d.fresh()
                d.ms.results = old.results
            if rng.random() < 0.5:  # the file is loaded over other uncertainties
                do(d.ms.makeaics, rng.sample([1.5, 2.5, 3.0, 4.0, 0.5, 1.0], rng.randint(1, 5)), 1.0)
                if rng.random() < 0.5:
                    do(d.ms.classify, d.r, 0.25)
            _, kept = do(d.ms.loadaics, fn)
            os.remove(fn)
            evs.append(dict(op="load", kept=kept, **d.tables()))
        for _ in range(rng.choice([1, 1, 2])):
            num, den = rng.choice([(0, 1), (1, 16), (1, 4), (1, 2), (1, 1)])
            _, kept = do(d.ms.classify, d.r, num / den)
            m, z = d.ms, [float(x) for x in d.ms.dgs]
            if m.class_tolerance != num / den:
                raise AssertionError("class_tolerance")
            evs.append({"op": "classify", "kept": kept, "num": num, "den": den, "cls": [[i + 1 for i in c] for c in m.classes],
                        "keys": all(set(map(float, t)) == set(z) for t in (m.sortedclasses, m.classweights, m.classprobs, m.sortedclassprobs)),
                        "of": [m.classes_idx[i] + 1 if i in m.classes_idx else 0 for i in range(len(m.results))],
                        "sc": [[[i + 1 for i in c] for c in m.sortedclasses[x]] for x in z], "clp": [[lg(p) for p in m.classprobs[x]] for x in z],
                        "clw": [[lg(p) for p in m.classweights[x]] for x in z],
                        "csum": [fx(float(sum(m.classprobs[x])), 10 ** 6) for x in z], "scp": [[i + 1 for i in m.sortedclassprobs[x]] for x in z]})
            for _ in range(rng.randint(2, 8)):
                evs.append(query(rng, d, do, z))
    return {"ev": evs, "crit": d.crit, "n": d.n}


def query(rng, d, do, z):
    m = d.ms
    q = rng.choice(["model", "model", "class", "prob", "prob", "nfree", "aic", "bestclasses", "bestmodels", "classbestdgs", "modelbestdgs",
                    "maxdgbyclass", "maxdgbymodel", "maxmodelbyclass", "maxmodelbymodel", "dgkey", "get"])
    di = rng.randrange(len(z))
    e = {"op": "query", "q": q, "d": di + 1}
    ncls, nm = len(m.classes), len(m.results)
    if q in ("model", "prob", "nfree", "aic", "class", "get"):
        kw = {}
        bycls = rng.choice(["best", "best", "none", "given"]) if q not in ("class", "get") else "best"
        c = 0
        if bycls == "none":
            kw["cls"], size = None, nm
        elif bycls == "given":
            c = rng.randrange(ncls)
            kw["cls"], size = c, len(m.classes[c])
        else:
            co = rng.randrange(ncls)
            if co or rng.random() < 0.5:
                kw["corder"] = co
            size = len(m.classes[m.sortedclassprobs[z[di]][-1 - co]])
        mo = rng.randrange(size)
        if q != "class" and (mo or rng.random() < 0.5):
            kw["morder"] = mo
        e.update(bycls=bycls, c=c + 1, corder=kw.get("corder", 0), morder=kw.get("morder", 0))
        names = [q]
        if q == "get":
            q = e["q"] = rng.choice(["model", "class", "prob", "nfree", "aic"])
            names = rng.sample(["model", "class", "prob", "nfree", "aic", "dG"], rng.randint(0, 3)) + [q]
            if "class" in names:
                kw.pop("morder", None)
                e["morder"] = 0
            (v, e["kept"]) = do(m.get, z[di], *names, **kw)
            if len(v) != len(names) or ("dG" in names and v[names.index("dG")] != z[di]):
                raise AssertionError("get returned %r for %r" % (v, names))
            v = v[-1]
        elif rng.random() < 0.3:
            (v, e["kept"]) = do(m.get, z[di], q, **kw)
            v = v[0]
        else:
            v, e["kept"] = do(getattr(m, "get_" + q), z[di], **kw)
        e["v"] = lg(v) if q == "prob" else fx(v, U) if q == "aic" else int(v) + (q != "nfree")
        return e
    e["c"] = rng.randint(1, ncls if q == "classbestdgs" else nm)
    if q in ("bestclasses", "bestmodels", "classbestdgs", "modelbestdgs"):
        ds = list(range(len(z)))
        a = []
        if rng.random() < 0.6:
            ds = rng.sample(ds, rng.randint(0 if q.endswith("dgs") else 1, len(ds)))
            a = [[z[i] for i in ds]]
        e["ds"] = [i + 1 for i in ds]
        if q.endswith("dgs"):
            a.insert(0, e["c"] - 1)
        v, e["kept"] = do(getattr(m, q), *a)
        e["vs"] = [z.index(x) + 1 for x in v] if q.endswith("dgs") else [int(x) + 1 for x in v]
    elif q.startswith("maxdg"):
        v, e["kept"] = do(m.maxprobdG_byclass if q == "maxdgbyclass" else m.maxprobdG_bymodel, e["c"] - 1)
        e["v"] = z.index(v) + 1
    elif q.startswith("maxmodel"):
        v, e["kept"] = do(m.maxprobmodel_byclass if q == "maxmodelbyclass" else m.maxprobmodel_bymodel, z[di])
        e["v"] = int(v) + 1
    else:
        x = rng.choice([rng.uniform(0, 5), 1.5, 3.0, 1.0])
        v, e["kept"] = do(m.dg_key, x)
        e["v"], e["x"] = z.index(v) + 1, int(1000 * x)
    return e


def run(ck):
    ck.model_check("MultiModel", "CONSTANTS Sqs = {0, 4, 5} MaxModels = %d Chis = {0, 2}\nSPECIFICATION Spec\nINVARIANT Partition Exemplar Distinct InOrder Dominates\nPROPERTY Stable\nCHECK_DEADLOCK FALSE\n"
                   % (3 if ck.quick else 4), "all sets of models with up to two peaks")
    n = ck.budget(2500, 12000)
    tr = [t for t in (trace(ck.rng, ck.tmp) for _ in range(n)) if t["ev"]]
    ck.notes["multi-member classes"] = sum(any(len(c) > 1 for c in e["cls"]) for t in tr for e in t["ev"] if e["op"] == "classify")
    ck.validate("MultiModelTrace", tr, what="recorded selections")
