---------------------------- MODULE SummaryTrace ----------------------------
(* State: the result the extraction holds now: <<>> or <<p>>. *)
EXTENDS TraceBatch
S == INSTANCE Summary WITH MaxF <- 0, MaxList <- 0, MaxText <- 0, base <- 0, fs <- 0, res <- 0, texts <- 0, at <- 0
Start(tr) == <<>>
Describes(p, t, comments) ==
  { <<"setting " \o k \o " is told", t.f[k] = p.f[k]>> : k \in DOMAIN p.f } \cup
  { <<"user comments are kept", t.comments = comments>>,
    <<"quality is the model's", S!Close(<<t.stat>>, <<p.stat>>)>>,
    <<"free parameters of the peaks are counted", t.kpeaks = p.kpeaks>>,
    <<"free parameters of the baseline are counted", t.kbl = p.kbl>>,
    <<"points of the fit are counted", t.n = p.n>>,
    <<"mean uncertainty", S!Close(<<t.mean>>, <<p.mean>>)>>,
    <<"one line per peak, in order", Len(t.peaks) = Len(p.peaks)>>,
    <<"position, width and area of every peak", Len(t.peaks) = Len(p.peaks) => \A i \in 1..Len(p.peaks) : S!Close(t.peaks[i].v, p.peaks[i].v)>>,
    <<"peak functions and whose each peak is",
      S!Lists(p.what, p.base, p.uses, t.pfs, [i \in 1..Len(t.peaks) |-> t.peaks[i].fn], [i \in 1..Len(p.peaks) |-> p.peaks[i].fn])>>,
    <<"the baseline's parameters", t.bl.on = p.bl.on /\ S!Close(t.bl.v, p.bl.v) /\ t.bl.names = p.bl.names>>,
    <<"baseline functions and whose the baseline is",
      S!Lists(p.what, p.base, p.bluses, t.bfs, IF t.bl.on THEN <<t.bl.fn>> ELSE <<>>, IF p.bl.on THEN <<p.bl.fn>> ELSE <<>>)>> }
Bad(tr, s, e) ==
  CASE e.op = "now" -> {}
    [] e.op = "summary" ->
       IF s = <<>> THEN Failing({ <<"nothing extracted: refused", e.r = "refused">> })
       ELSE Failing({ <<"a result can be summarised", e.r = "ok">>, <<"summarising changes nothing", e.kept>> })
            \cup (IF e.r = "ok" THEN Failing(Describes(s[1], e.t, e.comments)) ELSE {})
After(tr, s, e) == IF e.op = "now" THEN e.p ELSE s
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
