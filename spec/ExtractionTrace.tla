------------------------- MODULE ExtractionTrace -------------------------
(* Judges recorded extractions: the growth of the regions step by step, and *)
(* histories of extracting, fitting, estimating and adding on one object.   *)
EXTENDS TraceBatch
X == INSTANCE Extraction WITH MaxN <- 1, MaxY <- 1, MaxRes <- 1, NInit <- 0, NNew <- 0,
                              w <- 0, cl <- 0, mods <- 0, ip <- 0, fresh <- 0, phase <- 0, out <- 0

Start(tr) == IF tr.kind = "growth" THEN [cl |-> <<>>, dg |-> <<>>]
             ELSE [ip |-> tr.ip, ex |-> [on |-> FALSE, peaks |-> <<>>], seen |-> {}]
SetOf(q) == { q[i] : i \in 1..Len(q) }
All(ps) == [i \in 1..Len(ps) |-> ps[i].all]
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A v \in SetOf(a) \cup SetOf(b) : Cardinality({ i \in 1..Len(a) : a[i] = v }) = Cardinality({ i \in 1..Len(b) : b[i] = v })
AsSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

(* ------------------------------- growth ---------------------------------- *)
Befores(tr, s) == IF s.cl = <<>> THEN X!K!Starts(tr.d) ELSE {s.cl}
GrowthBad(tr, s, e) ==
  LET d == tr.d IN
  IF e.op = "step" THEN
    IF ~X!K!WellFormed(d, e.cl) THEN {"regions in order, apart and within the data"} ELSE
    LET fits == { <<b, g>> \in UNION { { <<b, g>> : g \in X!Grow(d, b) } : b \in Befores(tr, s) } : g.cl = e.cl }
    IN Failing({ <<"nothing is left to grow", \E b \in Befores(tr, s) : X!K!Open(d, b) # {}>>,
                 <<"regions grow by the tallest open point and join when they touch", fits # {}>>,
                 <<"each region has its own part of the same data", e.same /\ e.cut>>,
                 <<"residuals are searched over a stretch of the data", \A i \in 1..Len(e.nest) : 1 <= e.nest[i][1] /\ e.nest[i][1] <= e.nest[i][2]>>,
                 <<"residuals are searched next to the end reached or across the border where regions join",
                   fits # {} => \E f \in fits : \A i \in 1..Len(e.nest) : X!Searchable(d, f[2].put, e.nest[i][1], e.nest[i][2])>>,
                 <<"one model for each region", Len(e.dg) = Len(e.cl)>>,
                 <<"peaks of a region are in order", e.sorted>>,
                 <<"regions not worked on keep their models",
                   (fits # {} /\ s.cl # <<>>) =>
                     \E f \in fits : \A k \in X!Untouched(e.cl, f[2].put) :
                        \E j \in 1..Len(s.cl) : s.cl[j] = e.cl[k] /\ s.dg[j] = e.dg[k]>> })
  ELSE IF e.op = "window" THEN
    Failing({ <<"works on the points of the range, ends included", SetOf(e.points) = X!Window(e.x, e.lo, e.hi) /\ Len(e.points) = Cardinality(SetOf(e.points))>> })
  ELSE IF e.op = "end" THEN
    Failing({ <<"ends with one region over everything", \E b \in Befores(tr, s) : X!Joined(b) = <<<<1, X!K!N(d)>>>> >> })
  ELSE {"unknown event"}

(* ------------------------------ histories -------------------------------- *)
Mine(tr, s) == SetOf(tr.pf) \cup X!Owners(s.ip)
IsNew(tr, p) == p.rem /\ ~p.static /\ p.o \in SetOf(tr.pf) /\ \A i \in 1..Len(p.free) : p.free[i]
ResultClauses(tr, s, e, grown) ==
  { <<"succeeds", e.ok>>,
    <<"inputs unchanged", e.changed = <<>> /\ All(e.ip) = All(s.ip)>>,
    <<"result covers the points of the range", e.x = [i \in 1..Cardinality(X!Window(tr.x, tr.lo, tr.hi)) |-> tr.x[AsSeq(X!Window(tr.x, tr.lo, tr.hi))[i]]]>>,
    <<"result holds the data and uncertainties given", e.data>>,
    <<"result says how it came about", e.type = e.op>>,
    <<"peaks of the result are in order", X!Ordered(e.ex.peaks)>>,
    <<"peaks belong to requested or initial functions", X!Owners(e.ex.peaks) \subseteq Mine(tr, s)>>,
    <<"initial peaks not removable are kept, with what is fixed", X!KeepsNeeded(s.ip, e.ex.peaks)>>,
    <<"peaks not removable are initial ones", X!NoneAdded(s.ip, X!Needed(e.ex.peaks))>>,
    <<"fixed baseline parameters stay", e.baseline>>,
    <<"covariance describes the reported parts", e.cov>>,
    <<"same settings, same result", \A m \in s.seen : (m.op = e.op /\ m.cfg = e.cfg) => m.res = e.res>>,
    <<"new peaks are free, removable and of a requested function",
      \A i \in 1..Len(e.ex.peaks) : X!Count(s.ip, X!Key(e.ex.peaks[i])) < X!Count(e.ex.peaks, X!Key(e.ex.peaks[i])) => grown /\ IsNew(tr, e.ex.peaks[i])>> }
Unmoved(s, e) == e.changed = <<>> /\ All(e.ip) = All(s.ip) /\ e.ex.on = s.ex.on /\ All(e.ex.peaks) = All(s.ex.peaks)
Received(s, e, new) ==
  IF s.ex.on THEN /\ All(e.ip) = All(s.ip) /\ e.ex.on
                  /\ SameBag(All(e.ex.peaks), All(s.ex.peaks) \o All(new)) /\ X!Ordered(e.ex.peaks)
  ELSE /\ ~e.ex.on /\ SameBag(All(e.ip), All(s.ip) \o All(new)) /\ X!Ordered(e.ip)
Inside(tr, x) == LET W == X!Window(tr.x, tr.lo, tr.hi) IN \E i, j \in W : tr.x[i] <= x /\ x <= tr.x[j]
HistoryBad(tr, s, e) ==
  IF e.op \in {"extract_single", "fit_single"} THEN
    IF ~e.ok THEN {"succeeds"} ELSE Failing(ResultClauses(tr, s, e, e.op = "extract_single"))
  ELSE IF e.op = "estimate" THEN
    IF ~Inside(tr, e.at)
    THEN Failing({ <<"estimating outside the range is refused", ~e.ok /\ e.refused>>, <<"refusal changes nothing", Unmoved(s, e)>> })
    ELSE Failing({ <<"estimating inside the range succeeds", e.ok>>,
                   <<"estimation finds at most one peak, new", Len(e.found) <= 1 /\ \A i \in 1..Len(e.found) : IsNew(tr, e.found[i])>>,
                   <<"estimated peak is filed only when asked", (e.found = <<>> \/ ~e.add) => Unmoved(s, e)>>,
                   <<"estimated peak goes to the result, else to the initial peaks", (e.found # <<>> /\ e.add) => (e.changed = <<>> /\ Received(s, e, e.found))>> })
  ELSE IF e.op = "add" THEN
    Failing({ <<"adding peaks succeeds", e.ok>>, <<"added peaks go to the result, else to the initial peaks", e.changed = <<>> /\ Received(s, e, e.found)>> })
  ELSE {"unknown event"}

Bad(tr, s, e) == IF tr.kind = "growth" THEN GrowthBad(tr, s, e) ELSE HistoryBad(tr, s, e)
After(tr, s, e) ==
  IF tr.kind = "growth" THEN (IF e.op = "step" THEN [cl |-> e.cl, dg |-> e.dg] ELSE s)
  ELSE [ip |-> e.ip, ex |-> e.ex,
        seen |-> IF e.op \in {"extract_single", "fit_single"} THEN s.seen \cup {[op |-> e.op, cfg |-> e.cfg, res |-> e.res]} ELSE s.seen]
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
