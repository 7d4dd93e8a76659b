----------------------------- MODULE SeriesTrace -----------------------------
(* State: [ser: per series [res, act], file: what each file was saved from].    *)
EXTENDS TraceBatch
R == INSTANCE Series WITH Errs <- 0, Models <- 0, MaxRun <- 0, NFile <- 0, Depth <- 0, ser <- 0, file <- 0, n <- 0, done <- 0
Start(tr) == [ser |-> [i \in 1..tr.n |-> [res |-> <<>>, act |-> R!Nothing]], file |-> <<>>]
Others(s, e) == { <<"other series unchanged", \A i \in 1..Len(s.ser) : i = e.o \/ e.post[i].res = s.ser[i].res>> }
Kept(s, e) == { <<"the record is unchanged", \A i \in 1..Len(s.ser) : e.post[i].res = s.ser[i].res>> }
Active(p, a) == { <<"the uncertainty in effect", p.act.e = a.e>>, <<"the model in effect", p.act.m = a.m>>, <<"the baseline in effect", p.act.b = a.b>>,
                  <<"sampled as recorded", p.act.dr = a.dr>>, <<"something is in effect", p.act.on = a.on>> }
Bad(tr, s, e) ==
  CASE e.op = "run" -> Failing(Others(s, e) \cup { <<"the run succeeds", e.r = "ok">> } \cup (IF e.r # "ok" THEN {} ELSE
         { <<"one extraction per uncertainty, in order", [i \in 1..Len(e.got) |-> e.got[i].e] = e.errs>> }
         \cup (IF Len(e.got) # Len(e.errs) THEN {} ELSE
         { <<"every result is recorded", e.post[e.o].res = R!Record(e.errs, e.got)>>,
           <<"covariances are reported when asked, one per uncertainty", e.covs = IF e.want THEN [i \in 1..Len(e.got) |-> e.got[i].cov] ELSE <<>> >> })))
    [] e.op = "select" -> Failing(Kept(s, e) \cup
         (IF e.i > Len(s.ser[e.o].res) THEN { <<"no such result", e.r = "refused">> }
          ELSE { <<"selecting succeeds", e.r = "ok">> } \cup (IF e.i = 0 THEN { <<"nothing is in effect", ~e.post[e.o].act.on>> } ELSE Active(e.post[e.o], R!Select(s.ser[e.o], e.i)))))
    [] e.op = "work" -> Failing(Kept(s, e))
    [] e.op = "save" -> Failing({ <<"saving succeeds", e.r = "ok">> } \cup Kept(s, e))
    [] e.op = "load" -> LET w == R!Loaded(s.file[e.k]) IN
         Failing({ <<"loading succeeds", e.r = "ok">> } \cup Others(s, e) \cup (IF e.r # "ok" THEN {} ELSE
         { <<"the series is as saved", e.post[e.o].res = w.res>> }
         \cup (IF w.act.on THEN Active(e.post[e.o], w.act) ELSE { <<"nothing is in effect", ~e.post[e.o].act.on>> })))
After(tr, s, e) == [ser |-> e.post, file |-> IF e.op = "save" THEN Append(s.file, s.ser[e.o].res) ELSE s.file]
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
==============================================================================
