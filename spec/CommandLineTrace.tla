-------------------------- MODULE CommandLineTrace --------------------------
(* Each event is one run of the command-line tool: options, the extraction when    *)
(* extracting or at the end (after), how often it was extracted, what was saved,   *)
(* and the settings of an extraction of that file made without the tool (ref),     *)
(* which tells the defaults of what no option is about.                            *)
EXTENDS TraceBatch
R == INSTANCE CommandLine WITH MaxLen <- 0, d <- 0, s0 <- 0, os <- 0
Start(tr) == 0
(* up to rounding, and the six digits that saved uncertainties have *)
Near(a, b) == LET t == 2 + (IF a < 0 THEN -a ELSE a) \div 200000 IN a - b <= t /\ b - a <= t
NearSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
Same(a, b, v) == CASE v = "eff" -> NearSeq(a.eff, b.eff)
                   [] v = "bl" -> a.bl.t = b.bl.t /\ NearSeq(a.bl.p, b.bl.p) /\ a.bl.f = b.bl.f
                   [] OTHER -> a[v] = b[v]
(* a baseline function is estimated from the data, as without the tool *)
Want(e) == LET w == R!Settle(e.d, e.ref, e.opts) IN
  IF R!Last_(e.opts, {"--baseline"}).o = "none" THEN w ELSE [w EXCEPT !.bl = e.ref.bl]
Bad(tr, s, e) ==
  CASE e.op = "run" ->
    IF R!Refused(e.d, e.opts)
    THEN Failing({ <<"options that make no sense end the run", e.r = "refused" /\ e.extracted = 0>>, <<"nothing is saved then", ~e.saved>> })
    ELSE LET want == Want(e) IN
         Failing({ <<"the run succeeds", e.r = "ok">>,
           <<"peaks are extracted once, or not at all if asked", e.r # "ok" \/ e.extracted = (IF R!Extracts(e.opts) THEN 1 ELSE 0)>>,
           <<"the data are those of the file", e.r # "ok" \/ e.data>>,
           <<"the messages are as detailed as asked", e.r # "ok" \/ e.level = R!Level(e.opts)>>,
           <<"a file is saved exactly when asked", e.saved = R!Saves(e.opts)>>,
           <<"the file has the settings", ~e.saved \/ e.r # "ok" \/ \A v \in R!Vars : Same(want, e.file, v)>>,
           <<"the file has the result", ~e.saved \/ e.hasresult = R!Extracts(e.opts)>> }
         \cup (IF e.r # "ok" THEN {} ELSE { <<"setting " \o v, Same(want, e.after, v)>> : v \in R!Vars }))
    [] e.op = "wrong" -> Failing({ <<e.what \o " ends the run", e.r = "refused" /\ e.extracted = 0>>, <<"nothing is saved then", ~e.saved>> })
After(tr, s, e) == s
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
==============================================================================
