---------------------------- MODULE WorldsTrace ----------------------------
(* State: the world, and what has been seen of the law: pairs <<operation and    *)
(* settings, outcome>>. A trace starts with what runs in a process of their own   *)
(* gave (tr.law).                                                                 *)
EXTENDS TraceBatch
W == INSTANCE Worlds WITH Objs <- 0, Confs <- 0, Outs <- 0, Depth <- 0, w <- 0, law <- 0, hidden <- 0, n <- 0
Pairs(q) == { <<q[i][1], q[i][2]>> : i \in 1..Len(q) }
Start(tr) == [w |-> tr.w, law |-> Pairs(tr.law)]
Apart(s, e) == { <<"other objects are as they were", \A p \in 1..Len(s.w.conf) : p = e.o \/ (e.w.conf[p] = s.w.conf[p] /\ e.w.res[p] = s.w.res[p])>>,
                 <<"data, functions, peaks and surroundings are as they were", e.w.tree = s.w.tree>> }
Lawful(s, e) == { <<"the outcome follows from the settings alone", \A i \in 1..Len(e.law) :
                      /\ W!Agrees(s.law, e.law[i][1], e.law[i][2])
                      /\ \A k \in 1..Len(e.law) : e.law[k][1] = e.law[i][1] => e.law[k][2] = e.law[i][2]>> }
Settings(s, e) == { <<"the settings are as they were", e.w.conf[e.o] = s.w.conf[e.o]>> }
Bad(tr, s, e) == Failing(Apart(s, e) \cup Lawful(s, e) \cup
  CASE e.op = "set" -> { <<"the settings are those given", W!Given(s.w, e.w, e.o, e.c)>> }
    [] e.op = "run" -> Settings(s, e) \cup { <<"the run succeeds", e.r = "ok">> }
         \cup (IF e.r = "ok" THEN { <<"the result is there", W!Ran(s.w, e.w, e.o, e.out)>> } ELSE {})
    [] e.op = "broken" -> Settings(s, e) \cup { <<"no part of a result is left", W!Broken(s.w, e.w, e.o, e.raised)>> }
    [] e.op = "series" -> { <<"the series succeeds", e.r = "ok">> } \cup
         (IF e.r = "ok" THEN { <<"the last extraction of the series is in effect", W!Series(s.w, e.w, e.o, e.cs, e.outs)>> } ELSE {})
    [] e.op = "load" -> { <<"what is loaded has the settings of what was saved", e.r = "ok" /\ W!Taken(s.w, e.w, e.o, e.p)>> }
    [] e.op = "ask" -> { <<"asking succeeds", e.r = "ok">>, <<"asking changes nothing", W!Aside(s.w, e.w)>> }
    [] e.op = "add" -> {}
    [] e.op = "aside" -> { <<"nothing is changed", W!Aside(s.w, e.w)>> })
After(tr, s, e) == [w |-> e.w, law |-> s.law \cup Pairs(e.law)]
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
