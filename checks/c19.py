import json, logging, os, sys
import numpy as np
from vlib import call
from fakes import IPeak, IBase
from diffpy.srmise import srmiselog
from diffpy.srmise.modelcluster import ModelCluster
from diffpy.srmise.modelevaluators.aic import AIC
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseFileError, SrMiseLogError

PK = {n: IPeak(n) for n in (1, 2, 3)}
BF = IBase(1)
EXPR = {"false": "False", "true": "True", "rec<=": "self.recursion <= %d", "rec=": "self.recursion == %d",
        "cnt%%": "self.counter %% %d == 0", "cnt<": "self.counter < %d", "call=": "self.call == %d"}


def expr(f):
    if f["k"] == "cnt%":
        return "self.counter %% %d == 0" % f["v"]
    e = EXPR[f["k"]]
    return e % f["v"] if "%" in e else e


def ints(v):
    return [int(t) if float(t) == int(t) else 999999 for t in v]


def cluster(x, lo, hi, peaks, bl):
    m = Peaks([PK[len(p)].actualize(p, "internal") for p in peaks])
    b = None if bl is None else BF.actualize([bl], "internal")
    n = len(x)
    return ModelCluster(m, b, x, np.arange(n) * 1.0, np.ones(n), slice(lo, hi), AIC, [PK[1], PK[2], PK[3]])


def step(tr):
    mc = tr["mc"]
    return {"n": int(tr["counter"]), "rec": int(tr["recursion"]),
            "c": {"cl": [[int(s.start), int(s.stop)] for s in tr["clusters"]], "peaks": [ints(p.pars) for p in mc.model],
                  "bl": -1 if mc.baseline is None else ints(mc.baseline.pars)[0], "size": int(mc.size) if mc.size == len(mc.r_cluster) else -9}}


def files(t, base):
    out = []
    d = os.path.dirname(base)
    for f in sorted(os.listdir(d)):
        if f.startswith(os.path.basename(base) + "_"):
            k, v = call(t.read, os.path.join(d, f))
            s = step(v) if k == "ok" else {"n": -1, "rec": -1, "c": {"cl": [], "peaks": [], "bl": -5, "size": -5}}
            if "%s_%d" % (os.path.basename(base), s["n"]) != f:
                s["n"] = -7
            out.append(s)
    return out


def snapshot(mcs):
    return json.dumps([[ints(p.pars) for p in m.model] + [[m.slice.start, m.slice.stop], list(m.r_cluster), list(m.y_data)] for m in mcs])


def walk(ck, rng, tmp, i):
    base = os.path.join(tmp, "t%d" % i, "step") if rng.random() < 0.4 else None
    rf = lambda: [{"k": k, "v": rng.randint(1, 3)} for k in rng.sample(["true", "rec<=", "rec=", "cnt%", "cnt<", "call=", "true", "true"], rng.choice([1, 1, 1, 2]))]
    flt = rf()
    kw = {}
    if base:
        kw["filebase"] = base
    tr = {"flt": flt, "store": rng.random() < 0.7, "file": base is not None, "ev": []}
    if rng.random() < 0.1:
        tr["flt"] = [{"k": "false", "v": 0}]  # the default
    else:
        kw["filter"] = [expr(f) for f in flt]
    if tr["store"] or rng.random() < 0.5:
        kw["store"] = tr["store"]
    t = srmiselog.settracer(**kw)
    ck.expect(srmiselog.tracer is t, "a new tracer is put in effect")
    x = np.arange(12) * 1.0
    made = []
    for _ in range(rng.randint(4, 16)):
        ops = ["pushc", "pushr", "emit", "emit", "emit", "emit", "filter", "alter"]
        ops += ["popc"] * 2 * (t.call > 0) + ["popr"] * 2 * (t.recursion > 0) + ["reset"] * (rng.random() < 0.3)
        e = {"op": rng.choice(ops), "v": 0, "kept": True}
        k, v = "ok", None
        if e["op"] == "emit":
            edges = sorted(rng.sample(range(13), 2 * rng.choice([1, 1, 2, 3])))
            pos = rng.sample(range(-20, 20), 8)
            e["cl"] = []
            for lo, hi in zip(edges[::2], edges[1::2]):
                e["cl"].append({"lo": lo, "hi": hi, "peaks": sorted([pos.pop()] + [rng.randint(-9, 9) for _ in range(rng.randint(0, 2))] for _ in range(rng.randint(0, 2)))})
            b = rng.choice([None, 3, 4])
            mcs = [cluster(x, c["lo"], c["hi"], c["peaks"], b) for c in e["cl"]]
            e.update(bl=-1 if b is None else b, size=12)
            before = snapshot(mcs)
            k, v = call(t.emit, *mcs)
            v = 0
            e["kept"] = before == snapshot(mcs)
            made += mcs
        elif e["op"] == "alter":  # later work on what was emitted
            for m in made[-3:]:
                for p in m.model:
                    p.pars[0] = 77
                if m.baseline is not None:
                    m.baseline.pars[0] = 66
                if len(m.model):
                    m.deletepeak(0)
                m.change_slice(slice(0, 1))
                m.y_data[:] = 3
        elif e["op"] == "filter":
            e["flt"] = rf()
            t.filter = [expr(f) for f in e["flt"]]
        else:
            k, v = call({"reset": t.reset_trace}.get(e["op"]) or getattr(t, e["op"]))
        e.update(r=k if k == "ok" else "error " + v[0], v=int(v or 0) if k == "ok" else 0, call=t.call, rec=t.recursion, cnt=t.counter,
                 stored=[step(s) for s in t.trace], files=files(t, base) if base else [])
        tr["ev"].append(e)
    srmiselog.settracer()
    return tr


def replay(ck, depth):
    """Every transition of the tracing machine of the given depth, along a shortest path to it."""
    g = ck.edges("Tracing", "CONSTANTS Depth = %d MaxEmit = 3\nSPECIFICATION Spec\nACTION_CONSTRAINT Dump\nCHECK_DEADLOCK FALSE\n" % depth, "tracing machine for replay")
    x = np.arange(4) * 1.0
    mc = cluster(x, 1, 3, [[2]], None)
    parent = {}
    for s, acts in g.items():
        n = json.loads(s)["n"]
        for a, posts in acts.items():
            for p in posts:
                parent.setdefault(json.dumps({"t": json.loads(p)["t"], "n": n + 1}, sort_keys=True), (s, a))
    base = os.path.join(ck.tmp, "r", "s")
    for s, acts in g.items():
        for a, posts in acts.items():
            path, c = [], s
            while json.loads(c)["n"]:
                c, b = parent[c]
                path.insert(0, json.loads(b))
            init = json.loads(c)["t"]
            for f in os.listdir(os.path.dirname(base)) if os.path.isdir(os.path.dirname(base)) else []:
                os.remove(os.path.join(os.path.dirname(base), f))
            t = srmiselog.TracePeaks(filter=[expr(f) for f in init["flt"]], store=init["store"], filebase=base)
            for b in path + [json.loads(a)]:
                r = 0
                if b["op"] == "emit":
                    t.emit(mc)
                elif b["op"] == "filter":
                    t.filter = [expr(f) for f in b["flt"]]
                elif b["op"] == "store":
                    t.store = b["v"]
                else:
                    r = {"reset": t.reset_trace}.get(b["op"], getattr(t, b["op"], None))() or 0
            fs = sorted(int(f.split("_")[1]) for f in os.listdir(os.path.dirname(base)))
            recs = {}
            for n in fs:
                recs[n] = [l for l in open("%s_%d" % (base, n)) if l.startswith("recursion=")][0].strip()
            post = json.loads(sorted(posts)[0])
            want = post["t"]
            got = {"call": t.call, "rec": t.recursion, "cnt": t.counter, "stored": [[q["counter"], q["recursion"]] for q in t.trace], "files": recs, "r": r}
            exp = {"call": want["call"], "rec": want["rec"], "cnt": want["cnt"], "stored": [[q["n"], q["rec"]] for q in want["stored"]],
                   "files": {q["n"]: "recursion=%d" % q["rec"] for q in sorted(want["files"], key=lambda q: q["n"])}, "r": post["r"]}
            ck.expect(got == exp and len(posts) == 1, "tracing step %s differs from the specification" % json.loads(a)["op"], {"path": path, "act": a, "got": got, "spec": exp})


def logs(ck, rng, tmp, i):
    """A history of log settings and messages in a process of its own."""
    d = os.path.join(tmp, "log%d" % i)
    os.mkdir(d)
    ops = []
    for _ in range(rng.randint(4, 14)):
        op = rng.choice(["setlevel", "setlevel", "addfile", "filelevel", "filelevel", "msg", "msg", "msg", "msg", "live"])
        a = {"op": op}
        if op in ("setlevel", "addfile", "filelevel"):
            a["v"] = rng.choice([{"t": "int", "i": rng.choice([0, 1, 5, 10, 15, 20, 25, 30, 40, 50, 60]), "s": ""},
                                 {"t": "name", "i": 0, "s": rng.choice(["debug", "info", "warning", "error", "critical"])},
                                 {"t": "name", "i": 0, "s": rng.choice(["debug", "info", "error", "bogus", "", "verbose"])}, {"t": "other", "i": 0, "s": ""}])
            a["fmt"] = rng.choice(["plain", "level"])
        if op == "msg":
            a.update(lev=rng.choice([1, 3, 10, 15, 20, 30, 40, 50, 60]), id=rng.randint(1, 99))
        if op == "live":
            a.update(lp=rng.choice(["t", "f", "x"]), w=rng.choice(["t", "f", "f", "x"]))
        ops.append(a)
    pid = os.fork()
    if pid == 0:
        try:
            rc = 1
            logchild(ops, d)
            rc = 0
        finally:
            os._exit(rc)
    _, st = os.waitpid(pid, 0)
    if st != 0 or not os.path.exists(os.path.join(d, "ev.json")):
        ck.violate("a history of log settings and messages fails", {"history": ops})
        return {"ev": []}
    with open(os.path.join(d, "ev.json")) as f:
        return {"ev": json.load(f)}


def lines(path):
    out = []
    for l in open(path).read().splitlines():
        f = "plain"
        if l.startswith("<"):
            f, lev, l = "level", l[1:l.index(">")], l[l.index(">") + 1:]
        w = l.split()
        if len(w) == 3 and w[0] == "message":
            out.append({"fmt": f if f == "plain" or lev == w[1] else "wrong", "lev": int(w[1]), "id": int(w[2])})
        else:
            out.append({"fmt": "other", "lev": 0, "id": 0})
    return out


def logchild(ops, d):
    con = os.path.join(d, "console")
    fd = os.open(con, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(fd, 2)
    sys.stderr = os.fdopen(2, "w", 1)
    srmiselog.ch.setStream(sys.stderr)
    lg = logging.getLogger("diffpy.srmise")
    paths, ev = [], []
    sub = logging.getLogger("diffpy.srmise")
    for a in ops:
        e = dict(a)
        if "v" in a:
            v = a["v"]["s"] if a["v"]["t"] == "name" else a["v"]["i"] if a["v"]["t"] == "int" else None
        if a["op"] == "setlevel":
            k, r = call(srmiselog.setlevel, v)
        elif a["op"] == "filelevel":
            k, r = call(srmiselog.setfilelevel, v)
        elif a["op"] == "addfile":
            p = os.path.join(d, "f%d" % len(paths))
            f = {"plain": "%(message)s", "level": "<%(levelno)d>%(message)s"}[a["fmt"]]
            n = len(lg.handlers)
            if a["fmt"] == "plain" and a["v"] == {"t": "name", "i": 0, "s": "info"}:
                k, r = call(srmiselog.addfilelog, p)  # the defaults
            else:
                k, r = call(srmiselog.addfilelog, p, v, f)
            if k == "ok":
                paths.append(p)
        elif a["op"] == "msg":
            k, r = call(sub.log, a["lev"], "message %d %d", a["lev"], a["id"])
        elif a["op"] == "live":
            t = {"t": True, "f": False, "x": 5}
            if a["w"] == "f" and len(ev) % 2:
                k, r = call(srmiselog.liveplotting, t[a["lp"]])
            else:
                k, r = call(srmiselog.liveplotting, t[a["lp"]], t[a["w"]])
        e["r"] = "ok" if k == "ok" else "refused" if r[0] in ("ValueError", "SrMiseLogError", "TypeError") else "error " + r[0]
        e.update(out=lines(con), files=[lines(p) for p in paths], live=srmiselog.liveplots, wait=srmiselog.wait)
        ev.append(e)
    with open(os.path.join(d, "ev.json"), "w") as f:
        json.dump(ev, f)


def damaged(ck):
    """Texts of steps that are incomplete."""
    x = np.arange(5) * 1.0
    t = srmiselog.TracePeaks(filter=["True"], store=True)
    t.pushr()
    t.emit(cluster(x, 1, 4, [[2, 1], [3]], 3))
    s = t.writestr(t.trace[0])
    k, v = call(t.readstr, s)
    ck.expect(k == "ok" and step(v) == step(t.trace[0]), "a step reads back as written", {"text": s, "result": str(v)})
    for what, bad in [("counter", s.replace("counter=", "cuonter=")), ("recursion", s.replace("recursion=", "r=")),
                      ("clusters", s.replace("clusters=", "cl=")), ("model", s.replace("### ModelCluster", "")), ("all", "")]:
        k, v = call(t.readstr, bad)
        ck.expect(k == "err" and "SrMiseDataFormatError" in v, "a step without its %s is refused" % what, {"result": str(v)})
        p = os.path.join(ck.tmp, "bad")
        with open(p, "w") as f:
            f.write(bad)
        k, v = call(t.read, p)
        ck.expect(k == "err" and "SrMiseFileError" in v, "a file with a step without its %s is refused" % what, {"result": str(v)})


def run(ck):
    lt = [logs(ck, ck.rng, ck.tmp, i) for i in range(ck.budget(300, 2500))]
    ck.validate("LoggingTrace", lt, what="recorded logging histories")
    srmiselog.setlevel("critical")
    ck.model_check("Tracing", "CONSTANTS Depth = %d MaxEmit = 3\nSPECIFICATION Spec\nINVARIANT Numbered Below OneFileEach LastFile\nPROPERTY Balanced Silent NoLoss\nCHECK_DEADLOCK FALSE\n"
                   % ck.budget(6, 7), "every history of entering, leaving, emitting, filtering and resetting")
    ck.model_check("Logging", "CONSTANTS Levels = {0, 10, 20, 40} MaxFiles = %d MaxOut = 1\nSPECIFICATION Spec\nPROPERTY RefusedStays OnlyAdded OthersStay Shown\nCHECK_DEADLOCK FALSE\n"
                   % ck.budget(2, 3), "every history of log levels, files and messages")
    replay(ck, ck.budget(3, 4))
    damaged(ck)
    tr = [walk(ck, ck.rng, ck.tmp, i) for i in range(ck.budget(800, 6000))]
    ck.validate("TracingTrace", tr, what="recorded tracing histories")
