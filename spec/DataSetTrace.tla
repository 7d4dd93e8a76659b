---------------------------- MODULE DataSetTrace ----------------------------
(* State: the objects and what each file was written from. Each event carries *)
(* all objects afterwards, so that what an operation leaves alone is judged.  *)
EXTENDS TraceBatch
CONSTANT One
R == INSTANCE DataSet WITH One <- One, Nums <- 0, NObj <- 0, Depth <- 0, obj <- 0, file <- 0, n <- 0
Start(tr) == [obj |-> <<>>, file |-> <<>>]
Same(d, p, who) == { <<who \o ": " \o f, R!Agree(d, p, f)>> : f \in R!Fields }
(* the objects are as before apart from the i-th, which is d *)
Become(s, e, i, d, who) ==
  { <<"no object appears or disappears", Len(e.post) = Len(s.obj)>> }
  \cup UNION { IF j = i THEN Same(d, e.post[j], who) ELSE Same(s.obj[j], e.post[j], "other objects unchanged") : j \in 1..Len(s.obj) }
Keep(s, e, who) == { <<"no object appears or disappears", Len(e.post) = Len(s.obj)>> } \cup UNION { Same(s.obj[j], e.post[j], who) : j \in 1..Len(s.obj) }
Others(s, e) == UNION { IF j = e.o THEN {} ELSE Same(s.obj[j], e.post[j], "other objects unchanged") : j \in 1..Len(s.obj) }
Bad(tr, s, e) ==
  CASE e.op = "new" -> Failing(UNION { Same(s.obj[j], e.post[j], "other objects unchanged") : j \in 1..Len(s.obj) }
                        \cup Same(R!Default, e.post[Len(s.obj) + 1], "a new data set has the defaults"))
    [] e.op = "clear" -> Failing(Become(s, e, e.o, R!Default, "clearing restores the defaults"))
    [] e.op = "set" -> IF e.var \in R!Refinable /\ e.numeric
         THEN Failing({ <<"variable is set", e.r = "ok">> } \cup Become(s, e, e.o, R!SetVar(s.obj[e.o], e.var, e.v), "after setting a variable"))
         ELSE Failing({ <<"unknown variable or value is refused", e.r = "refused">> } \cup Keep(s, e, "refused setting"))
    [] e.op = "get" -> Failing(Keep(s, e, "getting changes nothing") \cup
         (IF e.var \in R!Refinable THEN { <<"variable is given", e.r = "ok" /\ e.v = s.obj[e.o][e.var]>> } ELSE { <<"unknown variable is refused", e.r = "refused">> }))
    [] e.op = "put" -> Failing(Become(s, e, e.o, R!PutMeta(s.obj[e.o], e.k, e.v), "after changing metadata"))
    [] e.op = "assign" -> Failing(Become(s, e, e.o, e.d, "after assigning"))
    [] e.op = "read" ->
         IF R!Broken(e.rows) THEN Failing({ <<"text that is not data is refused with a format error naming the file", e.r = "refused">> } \cup Others(s, e))
         ELSE IF R!MayBreak(e.rows) /\ e.r = "refused" THEN Failing(Others(s, e))
         ELSE Failing({ <<"data is read", e.r = "ok">> } \cup
           (IF e.r = "ok" THEN Become(s, e, e.o, R!FromText(e.h, e.rows, e.file), "after reading") ELSE Others(s, e)))
    [] e.op = "write" -> Failing({ <<"writing succeeds", e.r = "ok">> } \cup Keep(s, e, "writing changes nothing"))
    [] e.op = "load" ->
         LET d == s.file[e.k] IN
         IF Len(d.rob) = 0 THEN Failing({ <<"no data is refused", e.r = "refused">> } \cup Others(s, e))
         ELSE Failing({ <<"reading what was written succeeds", e.r = "ok">>, <<"file name is known", e.r # "ok" \/ e.post[e.o].file = e.file>> }
              \cup (IF e.r = "ok" THEN { <<"written and read: " \o f, R!ReadsBack(d, e.post[e.o], f)>> : f \in R!Fields } ELSE {}) \cup Others(s, e))
    [] e.op = "copy" ->
         IF e.to = 0
         THEN Failing({ <<"a copy is a new object", Len(e.post) = Len(s.obj) + 1 /\ e.fresh>> }
              \cup UNION { Same(s.obj[j], e.post[j], "copying changes nothing else") : j \in 1..Len(s.obj) }
              \cup Same(R!CopyOf(s.obj[e.o]), e.post[Len(e.post)], "a copy is equal"))
         ELSE Failing(Become(s, e, e.to, R!CopyOf(s.obj[e.o]), "a copy is equal"))
After(tr, s, e) == [obj |-> e.post, file |-> IF e.op = "write" THEN Append(s.file, s.obj[e.o]) ELSE s.file]
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
