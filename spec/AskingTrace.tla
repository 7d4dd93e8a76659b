---------------------------- MODULE AskingTrace ----------------------------
(* ask: a peak at x asked for (thousandths); lo..hi the points considered; H     *)
(* hidden peaks, dy the uncertainties, got the answer; before and after: the peaks there (ids stand    *)
(* for the object and its parameters); others: everything else unchanged.        *)
(* add: peaks handed in.  first: a region without peaks.                                                     *)
EXTENDS TraceBatch
A == INSTANCE Asking WITH L <- 0, Tops <- {}, data <- <<>>, known <- {}, start <- {}, last <- 0
Start(tr) == 0
Owners(e) == { h \in A!SetOf(e.H) : h.h > 8 * e.dy /\ A!At(h, e.x) }
Bad(tr, s, e) ==
  CASE e.op = "ask" -> Failing({ <<"a point beyond the range is refused, no other", (e.r = "ValueError") = (e.x < e.lo \/ e.x > e.hi) /\ e.r \in {"ok", "none", "ValueError"}>>,
           <<"what is found is the peak that is there, beyond baseline and known peaks",
             e.x >= e.lo /\ e.x <= e.hi => \A h \in Owners(e) : e.r = "ok" /\ A!Is(e.got, h)>>,
           <<"where nothing is left, nothing is found", e.nothing => \/ e.r # "ok"
                                                                     \/ (~e.below /\ A!Close(e.got.h, 0, 2))>>,
           <<"it is one of the first kind of peak", e.r = "ok" => e.kind>>,
           <<"it is added to the known peaks in their order if wanted, nothing is otherwise",
             IF e.r = "ok" /\ e.add THEN A!Added(e.before, <<[id |-> e.got.id, pos |-> e.got.rank]>>, e.after) ELSE e.before = e.after>>,
           <<"nothing else changes", e.others>> })
    [] e.op = "add" -> Failing({ <<"peaks handed in join the known ones in their order", e.r = "ok" /\ A!Added(e.before, e.new, e.after)>>,
           <<"nothing else changes", e.others>> })
    [] e.op = "first" -> Failing({ <<"a region without peaks gets the first guess of what its data has beyond the baseline, if there is one", e.same /\ e.found = (IF e.can THEN 1 ELSE 0)>>,
           <<"whether it does is told", e.can => e.r = "ok" /\ e.told>>, <<"no guess is told or refused as an estimation error", ~e.can => ~e.told /\ e.r \in {"ok", "SrMiseEstimationError"}>>,
           <<"nothing else changes", e.others>> })
After(tr, s, e) == 0
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
