--------------------------- MODULE ClustersTrace ---------------------------
(* Judges recorded uses of the real clustering object.                      *)
EXTENDS TraceBatch
C == INSTANCE Clusters WITH MaxN <- 1, MaxY <- 1, MaxGap <- 1, MaxRes <- 1,
                            d <- 0, cl <- 0, last <- 0

Start(tr) == [cl |-> <<>>]
Same(s, e) == e.cl = s.cl
SeqSet(q) == { q[i] : i \in 1..Len(q) }

Bad(tr, s, e) ==
  LET d == tr.d IN
  IF e.op = "new" THEN
       Failing({ <<"starts at the tallest point", e.cl \in C!Starts(d)>> })
  ELSE IF e.op = "restart" THEN
       Failing({ <<"restart returns to the tallest point", e.cl = e.first /\ e.cl \in C!Starts(d)>> })
  ELSE IF e.op = "step" THEN
       IF ~C!WellFormed(d, e.cl) THEN {"clusters well formed"} ELSE
       Failing({ <<"step handles the tallest open point",
                   \E t \in C!Steps(d, s.cl) : t.cl = e.cl>>,
                 <<"step reports cluster and point",
                   \E t \in C!Steps(d, s.cl) : t.cl = e.cl /\ t.k = e.k /\ t.p = e.p>>,
                 <<"no step once everything is covered", C!Open(d, s.cl) # {}>> })
  ELSE IF e.op = "end" THEN
       Failing({ <<"ends only when everything is covered", C!Open(d, s.cl) = {}>>,
                 <<"ending changes nothing", Same(s, e)>> })
  ELSE IF e.op = "nearest" THEN
       Failing({ <<"nearest cluster", e.k = C!Nearest(d, s.cl, e.p)>>,
                 <<"distance to nearest cluster",
                   e.dist = C!Dist(d, s.cl, C!Nearest(d, s.cl, e.p), e.p)>>,
                 <<"query changes nothing", Same(s, e)>> })
  ELSE IF e.op = "nearest2" THEN
       Failing({ <<"nearest cluster of a coordinate",
                   \E p \in C!PointsAt(d, e.c2) : /\ e.k = C!Nearest(d, s.cl, p)
                                                  /\ e.dist = C!Dist(d, s.cl, e.k, p)>>,
                 <<"query changes nothing", Same(s, e)>> })
  ELSE IF e.op = "full" THEN
       Failing({ <<"full flag", e.res = [k \in 1..Len(s.cl) |-> C!Full(d, s.cl, k)]>>,
                 <<"query changes nothing", Same(s, e)>> })
  ELSE IF e.op = "adjacent" THEN
       Failing({ <<"adjacent runs", /\ Len(e.res) = Cardinality(C!Runs(s.cl))
                                    /\ SeqSet(e.res) = { [i \in 1..(r[2] - r[1] + 1) |-> r[1] + i - 1] : r \in C!Runs(s.cl) }
                                    /\ \A i, j \in 1..Len(e.res) : i < j => e.res[i][1] < e.res[j][1]>>,
                 <<"query changes nothing", Same(s, e)>> })
  ELSE IF e.op = "cut" THEN
       Failing({ <<"cut", e.res = s.cl>>, <<"query changes nothing", Same(s, e)>> })
  ELSE IF e.op = "borders" THEN
       Failing({ <<"borders", SeqSet(e.res) = C!Borders(d, s.cl)>>,
                 <<"query changes nothing", Same(s, e)>> })
  ELSE IF e.op = "merge" THEN
       IF C!GroupsOK(s.cl, e.groups)
       THEN Failing({ <<"merge accepted", e.ok>>,
                      <<"merge result", e.cl = C!Merge(s.cl, e.groups)>> })
       ELSE Failing({ <<"bad merge refused", ~e.ok /\ e.refused>>,
                      <<"refused merge changes nothing", Same(s, e)>> })
  ELSE {"unknown event"}

After(tr, s, e) == [cl |-> e.cl]
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
