---------------------------- MODULE LoggingTrace ----------------------------
EXTENDS TraceBatch
L == INSTANCE Logging WITH Levels <- {}, MaxFiles <- 0, MaxOut <- 0, lg <- 0, last <- 0
Start(tr) == L!Fresh
Outs(q) == [i \in 1..Len(q) |-> q[i].out]
Bad(tr, s, e) ==
  LET p == L!Apply(s, e) IN
  Failing({ <<"outcome", e.r = IF L!Refused(s, e) THEN "refused" ELSE "ok">>,
            <<"messages on the console", e.out = p.out>>,
            <<"messages in the files", e.files = Outs(p.files)>>,
            <<"live plotting settings", e.live = p.live /\ e.wait = p.wait>> })
After(tr, s, e) == L!Apply(s, e)
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
==============================================================================
