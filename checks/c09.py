import json
import numpy as np
from vlib import call
from fakes import IPeak, IBase
from diffpy.srmise.modelparts import ModelParts
from diffpy.srmise.peaks.base import Peaks
from diffpy.srmise.srmiseerrors import SrMiseStaticOwnerError

OWN = {1: IPeak(1), 2: IPeak(2), 3: IPeak(2, 3), 4: IPeak(3), 5: IBase(2), 6: IBase(0), 7: IBase(1), 8: IPeak(4)}
NP = {k: f.npars for k, f in OWN.items()}


FINE = [0.0]  # distance of neighbouring values, if not 1


def real(v):
    return 1.0 + v * FINE[0] if FINE[0] else float(v)


def jint(v):
    v = float(v)
    if FINE[0]:
        v = (v - 1.0) / FINE[0]
    return int(v) if v == int(v) and abs(v) < 1e6 else 999999


def proj(world):
    rev = {id(f): k for k, f in OWN.items()}
    return [[{"own": rev[id(p.owner())], "pars": [jint(v) for v in p.pars], "free": [bool(v) for v in p.free],
              "rem": bool(p.removable), "stat": bool(p.static_owner)} for p in m] for m in world]


def part(j):
    # "internal" format: parameters arrive as given
    return OWN[j["own"]].actualize([real(v) for v in j["pars"]], "internal", free=j["free"], removable=j["rem"], static_owner=j["stat"])


def build(wj):
    return [(Peaks if all(p["own"] not in (5, 6, 7) for p in m) else ModelParts)([part(p) for p in m]) for m in wj]


def dflt(a):
    """Fixed parameters are counted unless asked otherwise."""
    return [] if a["fixed"] and a.get("plain") else [a["fixed"]]


def apply(world, a):
    """Perform operation a on the real objects; result record as in the specification."""
    op = a["op"]
    m = world[a["m"] - 1] if "m" in a else None
    p = m[a["i"] - 1] if "i" in a and op != "cut" else None
    key = a["j"] - 1 if "j" in a else None
    if a.get("byname"):
        key = [k for k, v in p.owner().parameterdict.items() if v == key][0]

    def do():
        if op == "unpack":
            return [jint(v) for v in m.unpack_freepars()]
        if op in ("pack", "packnan"):
            m.pack_freepars(np.array([real(v) for v in a["vals"]] if op == "pack" else [1.0, float("nan")] + [0.0] * 20, dtype=float))
        elif op == "copymodel":
            world.append(m.copy())
        elif op == "copypart":
            world.append(Peaks([p.copy()]))
        elif op == "setpar":
            p.pars[a["j"] - 1] = real(a["v"])
        elif op == "setfree":
            p.setfree(key, a["b"])
        elif op == "setrem":
            p.removable = a["b"]
        elif op == "setstat":
            p.static_owner = a["b"]
        elif op == "get":
            return jint(p[key])
        elif op == "getfree":
            return bool(p.getfree(key))
        elif op == "nparspart":
            return int(p.npars(*dflt(a)))
        elif op == "npars":
            return int(m.npars(*dflt(a)))
        elif op == "cut":
            q = m[slice(a["i"] - 1, a["j"])] if a.get("how", 0) == 0 else m[a["i"] - 1, a["j"]]
            assert type(q) is type(m) and all(x is y for x, y in zip(q, list(m)[a["i"] - 1:a["j"]]))  # the parts themselves
            world.append(q.copy())  # models of the specification share nothing
        elif op == "eqpart":
            q = world[a["m2"] - 1][a["i2"] - 1]
            assert (p == q) is not (p != q)
            return bool(p == q)
        elif op == "eqmodel":
            return bool(m == world[a["m2"] - 1])
        elif op == "changeowner":
            p.changeowner(OWN[a["own"]])
        elif op == "new":
            kw = dict(free=a["free"], removable=a["rem"], static_owner=a["stat"])
            if a.get("plain") and a["rem"] and not a["stat"]:  # removable and with changeable owner unless told otherwise
                kw = {"free": a["free"]}
            world.append(Peaks([OWN[a["own"]].actualize([real(v) for v in a["pars"]], "internal", **kw)]))
        return []

    kind, v = call(do)
    if kind == "ok":
        return {"k": "ok", "v": v}
    if "ValueError" in v or "SrMiseStaticOwnerError" in v:
        return {"k": "refused", "v": []}
    return {"k": "error %s" % v[0], "v": []}


def rpart(rng, peaks):
    o = rng.choice([1, 2, 3, 4, 8] if peaks else [1, 2, 3, 4, 5, 6, 7, 8])
    n = NP[o]
    return {"own": o, "pars": [rng.randint(-9, 9) for _ in range(n)], "free": [rng.random() < 0.6 for _ in range(n)],
            "rem": rng.random() < 0.5, "stat": rng.random() < 0.3}


def rop(rng, w):
    m = rng.randint(1, len(w))
    i = rng.randint(1, len(w[m - 1])) if w[m - 1] else 0
    n = len(w[m - 1][i - 1]["pars"]) if i else 0
    tot = sum(sum(p["free"]) for p in w[m - 1])
    ops = ["unpack", "pack", "pack", "pack", "copymodel", "npars", "eqmodel", "new", "cut"]
    if tot:
        ops.append("packnan")
    if i:
        ops += ["copypart", "setrem", "setstat", "nparspart", "eqpart", "eqpart", "changeowner"]
    if n:
        ops += ["setpar", "setfree", "get", "getfree"] * 2
    a = {"op": rng.choice(ops), "m": m}
    op = a["op"]
    if op == "pack":
        k = tot if rng.random() < 0.6 else max(0, tot + rng.randint(-3, 3))
        a["vals"] = [rng.randint(-99, 99) for _ in range(k)]
    if op in ("copypart", "setrem", "setstat", "nparspart", "eqpart", "changeowner", "setpar", "setfree", "get", "getfree"):
        a["i"] = i
    if op in ("setpar", "setfree", "get", "getfree"):
        a["j"] = rng.randint(1, n)
        a["byname"] = rng.random() < 0.5
    if op == "setpar":
        a["v"] = rng.randint(-9, 9)
    if op in ("setfree", "setrem", "setstat"):
        a["b"] = rng.random() < 0.5
    if op in ("npars", "nparspart"):
        a["fixed"] = rng.random() < 0.5
        a["plain"] = rng.random() < 0.5
    if op == "cut":
        a["i"] = rng.randint(1, len(w[m - 1]) + 1)
        a["j"] = rng.randint(a["i"] - 1, len(w[m - 1]))
        a["how"] = rng.randint(0, 1)
    if op in ("eqpart", "eqmodel"):
        cand = [k for k in range(len(w)) if w[k]]
        a["m2"] = rng.choice(cand) + 1 if op == "eqpart" else rng.randint(1, len(w))
        if op == "eqpart":
            a["i2"] = rng.randint(1, len(w[a["m2"] - 1]))
            p = w[m - 1][i - 1]
            alike = [(x, y) for x in range(len(w)) for y in range(len(w[x])) if (x, y) != (m - 1, i - 1) and w[x][y]["own"] == p["own"]
                     and sum([w[x][y][k] != p[k] for k in ("free", "rem", "stat")] + [s != t for s, t in zip(p["pars"], w[x][y]["pars"])]) == 1]
            if alike and rng.random() < 0.7:  # all but one thing agrees
                x, y = rng.choice(alike)
                a["m2"], a["i2"] = x + 1, y + 1
    if op == "changeowner":
        a["own"] = rng.choice([1, 2, 3, 4, 5, 7, 8])
        a["n"] = NP[a["own"]]
    if op == "new":
        o = rng.choice([1, 2, 3, 4, 8])
        k = NP[o] + rng.choice([0, 0, 0, 1, -1])
        f = NP[o] + rng.choice([0, 0, 0, 1, -1])
        a = {"op": "new", "own": o, "n": NP[o], "pars": [rng.randint(-9, 9) for _ in range(k)],
             "free": [rng.random() < 0.5 for _ in range(f)], "rem": rng.random() < 0.7, "stat": rng.random() < 0.3, "plain": rng.random() < 0.5}
    return a


def run(ck):
    c = "CONSTANTS Vals = {0, 1} MaxModels = 2 Depth = %d\n"
    ck.model_check("Params", c % ck.budget(2, 3) + "SPECIFICATION Spec\nINVARIANT RoundTrip PackUnpack\nPROPERTY FixedStay OthersStay CopyEqual\nCHECK_DEADLOCK FALSE\n",
                   "two parts with 2+1 parameters, all flags, all operations")
    c = "CONSTANTS Vals = {0} MaxModels = 2 Depth = 2\n"
    g = ck.edges("Params", c + "SPECIFICATION Spec\nACTION_CONSTRAINT Dump\nCHECK_DEADLOCK FALSE\n", "operation graph for replay")
    for s, acts in g.items():
        w = json.loads(s)
        for a, posts in acts.items():
            world = build(w)
            r = apply(world, json.loads(a))
            got = json.dumps({"w": proj(world), "r": r}, sort_keys=True)
            ck.expect(got in posts, "parameter operation %s differs from the specification" % json.loads(a)["op"],
                      {"state": w, "op": json.loads(a), "allowed": sorted(posts), "got": got})
    traces = []
    for t in range(ck.budget(1500, 10000)):
        FINE[0] = 2.0 ** -45 if t % 3 == 0 else 0.0
        w = [[rpart(ck.rng, k % 2 == 0) for _ in range(ck.rng.randint(0 if k else 1, 4))] for k in range(ck.rng.randint(1, 2))]
        world = build(w)
        w = proj(world)
        tr = {"w": w, "ev": []}
        for _ in range(ck.rng.randint(3, 14)):
            a = rop(ck.rng, proj(world))
            if a["op"] in ("copymodel", "copypart", "new", "cut") and len(world) > 5:
                continue
            r = apply(world, a)
            a.pop("byname", None), a.pop("plain", None), a.pop("how", None)
            tr["ev"].append({"op": a["op"], "a": a, "r": r, "w": proj(world)})
        if tr["ev"]:
            traces.append(tr)
    FINE[0] = 0.0
    ck.validate("ParamsTrace", traces, what="recorded parameter operations")
