--------------------------- MODULE FuncTextTrace ---------------------------
(* tr.base: for each function the one it is built from; tr.what: what it is     *)
(* (type, settings and behaviour, as one number).                               *)
EXTENDS TraceBatch
F == INSTANCE FuncText WITH MaxF <- 0, MaxList <- 0, base <- 0, fs <- 0
Start(tr) == 0
Rebuild(tr, q) == IF ~F!Writable(tr.base, q) THEN "unwritable" ELSE IF ~F!Readable(F!Text(tr.what, tr.base, q)) THEN "unreadable" ELSE "ok"
Bad(tr, s, e) ==
  CASE e.op = "list" -> Failing({ <<"every function once, after those it is built from, with all it is built from", F!Safe(tr.base, e.fs, e.q)>>,
                                  <<"the given list is not changed", e.kept>> })
    [] e.op = "rebuild" -> LET r == Rebuild(tr, e.q) IN
         Failing({ <<"outcome of rebuilding", e.r = r>> }
                 \cup (IF r = "ok" THEN { <<"types, settings, behaviour and mutual references", e.r = "ok" => e.t = F!Text(tr.what, tr.base, e.q)>> } ELSE {}))
    [] e.op = "part" -> LET o == F!IndexIn(e.q, e.owner) IN
         Failing({ <<"outcome of writing and reading a model part", e.r = IF o = 0 THEN "unwritable" ELSE IF o > e.n THEN "unreadable" ELSE "ok">>,
                   <<"owner", e.r = "ok" => e.newowner = o>>,
                   <<"parameters, free flags, removability", e.r = "ok" => e.new = e.old>>,
                   <<"kind of part", e.r = "ok" => e.kind>> })
    [] e.op = "damaged" -> Failing({ <<"damaged text is refused: " \o e.what, e.r = "refused">> })
After(tr, s, e) == s
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
==============================================================================
