import json
import clusterdrv as K


def run(ck):
    inv = "INVARIANT TypeOK Zero\nPROPERTY StepGrows FullStays\nCHECK_DEADLOCK FALSE\n"
    n = ck.budget(5, 6)
    ck.model_check("Clusters", K.CFG % (n, 2, 2, 2) + "SPECIFICATION Spec\n" + inv, "all data sets of %d points, 3 heights, 2 gaps, resolution 0..2" % n)
    ck.model_check("Clusters", K.CFG % (4, 2, 2, 2) + "SPECIFICATION FairSpec\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n", "termination of clustering, 4 points")
    for k in (2, 3, 4) + (() if ck.quick else (5,)):
        g = ck.edges("Clusters", K.CFG % (k, 2, 2, 2) + "INIT Init\nNEXT DoStep\nACTION_CONSTRAINT Dump\nCHECK_DEADLOCK FALSE\n", "graph for replay, %d points" % k)
        K.replay(ck, g, "step")
    traces = []
    for i in range(ck.budget(1500, 8000)):
        d = K.rdata(ck.rng, 16 if i % 5 else 40)
        s = ck.rng.choice([1.0, 0.25, 0.5, 4.0])
        traces.append(K.trace(d, ck.rng, s, ck.rng.choice([0, 0, -3, 10]), 0, 0.1 if i % 3 == 0 else 0))
    ck.validate("ClustersTrace", traces, what="recorded clustering runs")
