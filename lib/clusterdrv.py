"""Recording of the real DataClusters for ClustersTrace, and graph replay for Clusters."""
import copy, json
import numpy as np
from vlib import call
from diffpy.srmise.dataclusters import DataClusters


def cl1(dc):
    return [[int(a) + 1, int(b) + 1] for a, b in np.asarray(dc.clusters).reshape(-1, 2)]


def make(d, scale=1.0, off=0.0, yscale=1.0):
    x = np.array(d["x"], float) * scale + off
    y = np.array(d["y"], float) * yscale - 1.0
    return DataClusters(x, y, d["res"] * scale)


def rdata(rng, nmax=14):
    n = rng.randint(1, nmax)
    mode = rng.randrange(4)
    x, c = [], rng.randint(-5, 5)
    for i in range(n):
        x.append(c)
        c += 1 if mode == 0 else rng.randint(1, 6) if mode < 3 else rng.choice([1, 1, 1, 9])
    y = [rng.randint(0, rng.choice([2, 5, 40])) for _ in range(n)]
    if rng.random() < 0.5 and n > 4:  # smooth peaks
        cs = [rng.randrange(n) for _ in range(3)]
        y = [int(round(30 * max(1.0 / (1 + abs(i - k)) for k in cs))) for i in range(n)]
    return {"x": x, "y": y, "res": rng.choice([0, 0, 1, 1, 2, 3, 5, 20])}


def step(dc, evs):
    """One iteration step, recorded; False at the end."""
    kind, v = call(next, dc)
    if kind == "ok":
        evs.append({"op": "step", "cl": cl1(dc), "k": int(dc.lastcluster_idx) + 1, "p": int(dc.lastpoint_idx) + 1})
        return True
    if "StopIteration" in v:
        evs.append({"op": "end", "cl": cl1(dc)})
    else:
        evs.append({"op": "failed step: %s" % v, "cl": cl1(dc)})
    return False


def query(dc, d, evs, scale, off, rng):
    n = len(d["x"])
    r = rng.randrange(6)
    if r == 0:
        for p in range(n):
            k = dc.find_nearest_cluster(p)
            evs.append({"op": "nearest", "p": p + 1, "k": int(k[0]) + 1, "dist": int(round(float(k[1]) / scale)), "cl": cl1(dc)})
    elif r == 1:
        for c2 in range(2 * d["x"][0] - 3, 2 * d["x"][-1] + 4):
            k = dc.find_nearest_cluster2(c2 * scale / 2 + off)
            evs.append({"op": "nearest2", "c2": c2, "k": int(k[0]) + 1, "dist": int(round(float(k[1]) / scale)), "cl": cl1(dc)})
    elif r == 2:
        res = [bool(dc.cluster_is_full(i)) for i in range(len(dc.clusters))]
        evs.append({"op": "full", "res": res, "cl": cl1(dc)})
    elif r == 3:
        a = dc.find_adjacent_clusters()
        evs.append({"op": "adjacent", "res": [[int(i) + 1 for i in g] for g in a], "cl": cl1(dc)})
    elif r == 4:
        res = []
        for i in range(len(dc.clusters)):
            c = dc.cut(i)
            res.append([int(c.start) + 1, int(c.stop)])
        evs.append({"op": "cut", "res": res, "cl": cl1(dc)})
        idx = list(range(len(dc.clusters)))
        if len(idx) > 1:
            evs.append({"op": "cut", "res": [[int(c.start) + 1, int(c.stop)] for c in dc.cut(idx)], "cl": cl1(dc)})
    else:
        b = dc.cluster_boundaries()
        res = [[int(round((u - off) / scale * 2)), int(round((v + 1.0) * 2))] for u, v in np.asarray(b)]
        evs.append({"op": "borders", "res": res, "cl": cl1(dc)})


def merge(dc, groups, evs):
    kind, v = call(dc.combine_clusters, [[g - 1 for g in gr] for gr in groups])
    evs.append({"op": "merge", "groups": groups, "ok": kind == "ok", "refused": kind == "err" and "ValueError" in v, "cl": cl1(dc)})


def rgroups(dc, rng):
    m = len(dc.clusters)
    adj = [[int(i) + 1 for i in g] for g in dc.find_adjacent_clusters()]
    r = rng.random()
    if r < 0.45 and adj:  # whole or part of adjacent runs
        out = []
        for g in adj:
            if rng.random() < 0.8:
                a = rng.randrange(len(g) - 1)
                b = rng.randint(a + 1, len(g) - 1)
                out.append(g[a:b + 1])
        rng.shuffle(out)
        if out:
            return out
    out = []
    for _ in range(rng.randint(1, 3)):
        k = rng.randint(1, min(3, m))
        a = rng.randint(1, m - k + 1)
        g = list(range(a, a + k))
        if rng.random() < 0.25:
            g = g[::-1]
        if rng.random() < 0.2:
            g = [rng.randint(1, m) for _ in range(k)]
        out.append(g)
    return out


def trace(d, rng, scale, off, queries, merges, inspect=True):
    dc = make(d, scale, off)
    evs = [{"op": "new", "cl": cl1(dc)}]
    first = cl1(dc)
    while True:
        if queries and rng.random() < queries:
            query(dc, d, evs, scale, off, rng)
        if merges and rng.random() < merges:
            merge(dc, rgroups(dc, rng), evs)
        if not step(dc, evs) or len(evs) > 400:
            break
    step(dc, evs)  # the end stays the end
    if rng.random() < 0.4:
        dc.reset_clusters()
        evs.append({"op": "restart", "cl": cl1(dc), "first": first})
        while step(dc, evs) and len(evs) < 800:
            pass
    return {"d": d, "ev": evs, "note": {"scale": scale, "offset": off}}


CFG = "CONSTANTS MaxN = %d MaxY = %d MaxGap = %d MaxRes = %d\n"


def replay(ck, g, op_filter):
    """Walk TLC's state graph in lockstep with real objects; every transition out of every
    reached specification state is taken in the code and must be among those TLC printed."""
    byd = {}
    for s in g:
        o = json.loads(s)
        byd.setdefault(json.dumps(o["d"], sort_keys=True), set()).add(s)
    for ds in byd:
        d = json.loads(ds)
        dc = make(d)
        seen = set()
        stack = [dc]
        while stack:
            o = stack.pop()
            cl = cl1(o)
            key = json.dumps({"d": d, "cl": cl}, sort_keys=True)
            mark = (key, int(o.current_idx) if hasattr(o, "current_idx") else None)
            if mark in seen:
                continue
            seen.add(mark)
            out = g.get(key, {})
            if '"step"' not in out and op_filter != "merge":
                kind, v = call(next, copy.deepcopy(o))
                ck.expect(kind == "err" and "StopIteration" in v, "step after everything is covered", {"d": d, "cl": cl, "got": str(v)})
            for a, posts in out.items():
                a = json.loads(a)
                if a == "step":
                    c = copy.deepcopy(o)
                    kind, v = call(next, c)
                    got = {"cl": cl1(c), "last": [int(c.lastcluster_idx) + 1 if c.lastcluster_idx is not None else 0, int(c.lastpoint_idx) + 1]}
                    if ck.expect(kind == "ok" and json.dumps(got, sort_keys=True) in posts, "clustering step differs from the specification",
                                 {"d": d, "from": cl, "allowed": sorted(posts), "got": got if kind == "ok" else v}):
                        stack.append(c)
                else:
                    # try every run the specification merges; the real adjacency query must offer them
                    allowed = {json.dumps(json.loads(p)["cl"]) for p in posts}
                    gots = set()
                    for run in o.find_adjacent_clusters():
                        c = copy.deepcopy(o)
                        kind, v = call(c.combine_clusters, [list(map(int, run))])
                        gots.add(json.dumps(cl1(c)) if kind == "ok" else "err %s" % v)
                        if kind == "ok" and len(c.clusters):
                            stack.append(c)
                    ck.expect(gots == allowed, "merging adjacent clusters differs from the specification",
                              {"d": d, "from": cl, "allowed": sorted(allowed), "got": sorted(gots)})
