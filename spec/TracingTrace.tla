---------------------------- MODULE TracingTrace ----------------------------
(* Steps carry their content: the clusters given, as [lo, hi, peaks]; recorded *)
(* steps report [lo, hi] of the clusters, the peaks (parameters) and extent of  *)
(* the model recorded.                                                          *)
EXTENDS TraceBatch
T == INSTANCE Tracing WITH Depth <- 0, MaxEmit <- 0, t <- 0, act <- 0, n <- 0
Start(tr) == T!Fresh(tr.flt, tr.store, tr.file)
RECURSIVE AllPeaks(_, _)
AllPeaks(cl, i) == IF i = 0 THEN <<>> ELSE AllPeaks(cl, i - 1) \o cl[i].peaks
Content(e) == [cl |-> [i \in 1..Len(e.cl) |-> <<e.cl[i].lo, e.cl[i].hi>>],
               peaks |-> SortSeq(AllPeaks(e.cl, Len(e.cl)), LAMBDA p, q : p[1] < q[1]),
               bl |-> e.bl, size |-> e.size]
Act(e) == IF e.op = "emit" THEN [op |-> "emit", c |-> Content(e)] ELSE IF e.op = "filter" THEN [op |-> "filter", flt |-> e.flt]
          ELSE IF e.op = "store" THEN [op |-> "store", v |-> e.v] ELSE [op |-> e.op]
ToSet2(q) == { q[i] : i \in 1..Len(q) }
Bad(tr, s, e) ==
  LET p == T!Apply(s, Act(e)) IN
  Failing({ <<"succeeds", e.r = "ok">>,
            <<"depth returned", e.v = T!Returned(s, Act(e))>>,
            <<"depth and number", e.call = p.call /\ e.rec = p.rec /\ e.cnt = p.cnt>>,
            <<"steps stored, in order, as they were when emitted", e.stored = p.stored>>,
            <<"steps written and read back", ToSet2(e.files) = ToSet2(p.files) /\ Len(e.files) = Len(p.files)>>,
            <<"emitting leaves the clusters as they are", e.kept>> })
After(tr, s, e) == T!Apply(s, Act(e))
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
==============================================================================
