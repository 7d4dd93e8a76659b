----------------------------- MODULE StoreTrace -----------------------------
(* State: what each file holds: a sequence of [ok, p]. *)
EXTENDS TraceBatch
R == INSTANCE Store WITH Vals <- 0, NObj <- 0, NFile <- 0, Depth <- 0, obj <- 0, file <- 0, n <- 0
Start(tr) == <<>>
Fields(p) == DOMAIN p.f
Bad(tr, s, e) ==
  CASE e.op = "save" -> Failing({ <<"saving succeeds", e.r = "ok">>, <<"saving changes nothing", e.kept>> })
    [] e.op = "load" ->
         IF ~s[e.k].ok THEN Failing({ <<"damaged or incomplete text is refused with a format error: " \o s[e.k].why, e.r = "refused">> })
         ELSE Failing({ <<"reading succeeds", e.r = "ok">> }
              \cup (IF e.r # "ok" THEN {} ELSE
                { <<x \o " reads back", s[e.k].p.f[x] = e.p.f[x]>> : x \in Fields(e.p) }
                \cup { <<"functions and their sharing read back", R!SameRefs(s[e.k].p, e.p)>> }))
    [] e.op = "damage" -> {}
After(tr, s, e) == CASE e.op = "save" -> Append(s, [ok |-> TRUE, why |-> "", p |-> e.p])
                     [] e.op = "damage" -> Append(s, [ok |-> FALSE, why |-> e.why, p |-> s[e.k].p])
                     [] OTHER -> s
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
