import json
import clusterdrv as K


def run(ck):
    inv = "INVARIANT TypeOK RunsDisjoint\nPROPERTY MergeKeeps FullStays\nCHECK_DEADLOCK FALSE\n"
    n = ck.budget(5, 6)
    ck.model_check("Clusters", K.CFG % (n, 2, 2, 2) + "SPECIFICATION Spec\n" + inv, "clustering and merging interleaved, %d points" % n)
    for k in (3, 4):
        g = ck.edges("Clusters", K.CFG % (k, 2, 2, 2) + "INIT Init\nNEXT Next\nACTION_CONSTRAINT Dump\nCHECK_DEADLOCK FALSE\n", "graph for replay, %d points" % k)
        K.replay(ck, g, "merge")
    traces = []
    for i in range(ck.budget(900, 5000)):
        d = K.rdata(ck.rng, 14 if i % 5 else 24)
        s = ck.rng.choice([1.0, 0.25, 0.5, 4.0])
        traces.append(K.trace(d, ck.rng, s, ck.rng.choice([0, 0, -3, 10]), 0.5, 0.35))
    ck.validate("ClustersTrace", traces, what="recorded queries and merges")
