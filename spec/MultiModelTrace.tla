--------------------------- MODULE MultiModelTrace ---------------------------
(* State: the models and the tables as last reported (all checked when they    *)
(* were): cls, and for uncertainty d: stat[d], lp[d] (log probability), sp[d]   *)
(* (models worst to best), clp[d], scp[d], sc[d].  Numbers start at 1.          *)
EXTENDS TraceBatch
M == INSTANCE MultiModel WITH Sqs <- {}, MaxModels <- 0, Chis <- {}, ms <- 0, cls <- 0
AbsI(v) == IF v < 0 THEN -v ELSE v
U == 1000
Start(tr) == [ms |-> <<>>, crit |-> tr.crit, n |-> tr.n, dgs |-> <<>>, cls |-> <<>>]
SetOf(q) == { q[i] : i \in 1..Len(q) }
(* log probabilities lp (thousandths) of statistics f (thousandths) over S *)
Evidence(lp, f, S, sum) ==
  /\ \A i, j \in S : AbsI(2 * (lp[i] - lp[j]) + (f[i] - f[j])) <= 6
  /\ AbsI(sum - 1000000) <= 1
Weights(lw, f, S) == Len(lw) = Cardinality(S) /\ \A i, j \in S : AbsI(2 * (lw[i] - lw[j]) + (f[i] - f[j])) <= 6
AicsBad(s, ms, e) ==
  LET D == 1..Len(e.g) N == 1..Len(ms) IN
  { <<"one statistic per model and uncertainty", \A d \in D : Len(e.stat[d]) = Len(ms)>>,
    <<"statistics follow their definition", \A d \in D : \A i \in N :
        AbsI(16 * e.stat[d][i] * M!Den(s.crit, ms[i], s.n) - U * M!Stat16(s.crit, ms[i], e.g[d], s.n)) <= 16 * M!Den(s.crit, ms[i], s.n)>>,
    <<"probabilities follow the statistics and sum to one", \A d \in D : Evidence(e.lp[d], e.stat[d], N, e.sum[d])>>,
    <<"weights follow the statistics", \A d \in D : Weights(e.lw[d], e.stat[d], N)>>,
    <<"tables are of the uncertainties tried, by their order", e.keys /\ e.idx = [i \in 1..Len(e.dgs) |-> i]>>,
    <<"models are ranked by their probability", \A d \in D : M!Ranks(e.sp[d], N, e.stat[d])>> }
Best(e, d, c) == e.sc[d][c][Len(e.sc[d][c])]
ClassBad(s, e) ==
  LET D == 1..Len(s.dgs) C == 1..Len(e.cls)
      cl == M!Classes(s.ms, e.num, e.den) IN
  { <<"classes of equivalent models", e.cls = cl>>,
    <<"class tables are of the uncertainties tried", e.keys>>,
    <<"class of each model", \A i \in 1..Len(s.ms) : e.of[i] = M!ClassOf(cl, i)>>,
    <<"members are ranked by quality", \A d \in D : Len(e.sc[d]) = Len(cl) /\ \A c \in 1..Len(cl) : M!Ranks(e.sc[d][c], SetOf(cl[c]), s.stat[d])>>,
    <<"class probabilities are those of the best members and sum to one",
       \A d \in D : Len(e.clp[d]) = Len(e.cls) /\ Evidence(e.clp[d], [c \in C |-> s.stat[d][Best(e, d, c)]], C, e.csum[d])>>,
    <<"class weights are those of the best members", \A d \in D : Weights(e.clw[d], [c \in C |-> s.stat[d][Best(e, d, c)]], C)>>,
    <<"classes are ranked by probability", \A d \in D : M!Ranks(e.scp[d], C, [c \in C |-> s.stat[d][Best(e, d, c)]])>> }
TheClass(s, e) == M!NthBest(s.scp[e.d], e.corder)
TheModel(s, e) == IF e.bycls = "none" THEN M!NthBest(s.sp[e.d], e.morder)
                  ELSE M!NthBest(s.sc[e.d][IF e.bycls = "given" THEN e.c ELSE TheClass(s, e)], e.morder)
BestClass(s, d) == M!NthBest(s.scp[d], 0)
BestModel(s, d) == M!NthBest(s.sc[d][BestClass(s, d)], 0)
BestSet(s, e, F(_, _)) == { F(s, e.ds[i]) : i \in 1..Len(e.ds) }
Ascending(q) == \A i \in 1..Len(q) - 1 : q[i] < q[i + 1]
IsMax(f, d, D) == \A x \in D : f[x] <= f[d] + 1
QueryBad(s, e) ==
  LET D == 1..Len(s.dgs) IN
  { <<"query " \o e.q,
     CASE e.q = "model" -> e.v = TheModel(s, e)
       [] e.q = "class" -> e.v = TheClass(s, e)
       [] e.q = "prob" -> e.v = (IF e.bycls = "none" THEN s.lp[e.d][TheModel(s, e)] ELSE s.clp[e.d][M!ClassOf(s.cls, TheModel(s, e))])
       [] e.q = "nfree" -> e.v = s.ms[TheModel(s, e)].k + s.ms[TheModel(s, e)].kbl
       [] e.q = "aic" -> e.v = s.stat[e.d][TheModel(s, e)]
       [] e.q = "bestclasses" -> Ascending(e.vs) /\ SetOf(e.vs) = BestSet(s, e, BestClass)
       [] e.q = "bestmodels" -> Ascending(e.vs) /\ SetOf(e.vs) = BestSet(s, e, BestModel)
       [] e.q = "classbestdgs" -> e.vs = SelectSeq(e.ds, LAMBDA d : BestClass(s, d) = e.c)
       [] e.q = "modelbestdgs" -> e.vs = SelectSeq(e.ds, LAMBDA d : BestModel(s, d) = e.c)
       [] e.q = "maxdgbyclass" -> IsMax([d \in D |-> s.clp[d][M!ClassOf(s.cls, e.c)]], e.v, D)
       [] e.q = "maxdgbymodel" -> IsMax([d \in D |-> s.lp[d][e.c]], e.v, D)
       [] e.q = "maxmodelbyclass" -> e.v = BestModel(s, e.d)
       [] e.q = "maxmodelbymodel" -> e.v = M!NthBest(s.sp[e.d], 0)
       [] e.q = "dgkey" -> \A x \in D : AbsI(s.dgs[e.v] - e.x) <= AbsI(s.dgs[x] - e.x)>> }
Bad(tr, s, e) ==
  Failing({ <<"results are not changed", e.kept>> } \cup
    (CASE e.op = "aics" -> AicsBad(s, e.ms, e)
       [] e.op = "load" -> AicsBad(s, s.ms, e) \cup { <<"uncertainties in ascending order", Ascending(e.dgs)>>,
                                                      <<"same uncertainties", SetOf(e.dgs) = SetOf(s.dgs)>> }
       [] e.op = "classify" -> ClassBad(s, e)
       [] e.op = "query" -> QueryBad(s, e)))
After(tr, s, e) ==
  CASE e.op = "aics" -> [ms |-> e.ms, crit |-> s.crit, n |-> s.n, dgs |-> e.dgs, cls |-> <<>>, stat |-> e.stat, lp |-> e.lp, sp |-> e.sp]
    [] e.op = "load" -> [ms |-> s.ms, crit |-> s.crit, n |-> s.n, dgs |-> e.dgs, cls |-> <<>>, stat |-> e.stat, lp |-> e.lp, sp |-> e.sp]
    [] e.op = "classify" -> [ms |-> s.ms, crit |-> s.crit, n |-> s.n, dgs |-> s.dgs, stat |-> s.stat, lp |-> s.lp, sp |-> s.sp,
                             cls |-> e.cls, sc |-> e.sc, clp |-> e.clp, scp |-> e.scp]
    [] OTHER -> s
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
