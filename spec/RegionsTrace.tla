---------------------------- MODULE RegionsTrace ----------------------------
(* Recorded operations on regions.  Amplitudes after an operation come in     *)
(* ten-thousandths (a10k).                                                    *)
EXTENDS TraceBatch
G == INSTANCE Regions WITH Pos <- {}, Amps <- {}, N <- 0, left <- 0, right <- 0, joined <- 0, phase <- 0
U == 10000
(* p (before) became q (after), its amplitude multiplied by num/den *)
Same(p, q) == /\ p.id = q.id /\ p.pos = q.pos /\ p.kind = q.kind
              /\ p.pfree = q.pfree /\ p.afree = q.afree /\ p.rem = q.rem
Scaled(p, q, num, den) == G!Abs(q.a10k * den - p.amp * U * num) <= 2 * G!Abs(den)
Unscaled(p, q) == q.a10k = p.amp * U
RECURSIVE ById(_, _)
ById(ps, i) == LET k == CHOOSE j \in 1..Len(ps) : ps[j].id = i IN ps[k]
(* collection before (in order) against after a match *)
Matched(ps, qs, m) ==
  /\ Len(ps) = Len(qs)
  /\ \A i \in 1..Len(ps) : /\ Same(ps[i], qs[i])
                           /\ IF i \in m.S THEN Scaled(ps[i], qs[i], m.num, m.den) ELSE Unscaled(ps[i], qs[i])
Asis(ps, qs) == Len(ps) = Len(qs) /\ \A i \in 1..Len(ps) : Same(ps[i], qs[i]) /\ Unscaled(ps[i], qs[i])
SameBag(P, qs) == \* P: set of peaks with distinct ids
  /\ Len(qs) = Cardinality(P)
  /\ \A p \in P : \E j \in 1..Len(qs) : Same(p, qs[j]) /\ Unscaled(p, qs[j])

JoinBad(e) ==
  IF ~G!JoinAllowed(e) THEN { <<"regions which do not fit together are refused", e.r = "refused">> }
  ELSE IF e.r # "ok" THEN { <<"neighbouring regions can be joined", FALSE>> }
  ELSE LET l == IF G!LeftFirst(e) THEN e.m1 ELSE e.m2
           r == IF G!LeftFirst(e) THEN e.m2 ELSE e.m1
           K == G!Ids(e.m)
           orig == [i \in 1..Len(e.m) |-> ById(l \o r, e.m[i].id)]
           known == K \subseteq G!Ids(l) \cup G!Ids(r)
       IN { <<"joined region covers both", e.lo = (IF G!LeftFirst(e) THEN e.lo1 ELSE e.lo2)
                                          /\ e.hi = (IF G!LeftFirst(e) THEN e.hi2 ELSE e.hi1)>>,
            <<"joined region has peak functions of both", e.funcs>>,
            <<"no peak twice", Cardinality(K) = Len(e.m)>>,
            <<"peaks of the two regions only", known>>,
            <<"peaks are sorted", G!Sorted(e.m)>>,
            <<"required peaks are kept", \A i \in 1..Len(l \o r) : ~(l \o r)[i].rem => (l \o r)[i].id \in K>>,
            <<"only stray removable peaks are dropped",
               IF Len(l) = 0 \/ Len(r) = 0 THEN K = G!Ids(l) \cup G!Ids(r) ELSE G!Kept(K, l, r, e.border)>>,
            <<"peaks are those of the regions, matched at the border",
               known => IF Len(l) = 0 \/ Len(r) = 0 THEN Asis(orig, e.m)
                        ELSE Matched(orig, e.m, G!Match(orig, e.border, e.by))>> }
MatchBad(e) ==
  LET m == G!Match(e.before, e.x, e.y)
  IN { <<"matched peaks", Matched(e.before, e.m, m)>>, <<"reports whether anything was scaled", e.r = m.ret>> }
EditBad(e) ==
  LET del == { e.del[i] : i \in 1..Len(e.del) } IN
  IF G!Refused(e.before, del) THEN { <<"dropping a required peak is refused", e.r = "refused">>, <<"a refused edit changes nothing", Asis(e.before, e.m)>> }
  ELSE { <<"edit is accepted", e.r = "ok">>,
         <<"exactly the requested peaks are gone and added", SameBag(G!Remaining(e.before, del) \cup { e.new[i] : i \in 1..Len(e.new) }, e.m)>>,
         <<"peaks stay in position order", G!Sorted(e.m)>>,
         <<"external peaks bring their values along, nothing else changes the data",
            \A i \in 1..Len(e.ys0) : e.ys1[i] = e.ys0[i] + IF e.ext THEN G!Total(e.new, 1..Len(e.new), i - 1) ELSE 0>>,
         <<"the given peaks are untouched", e.given>> }
GrowBad(s, e) ==
  { <<"extent is as asked", e.lo1 = e.lo /\ e.hi1 = e.hi>>,
    <<"data window and size follow the extent", e.window>>,
    <<"never worth fitting exactly when no point rises to baseline plus uncertainty",
       e.never <=> \A i \in e.lo..e.hi : e.y[i] < e.bl[i] + e.err[i]>>,
    <<"model and baseline stay", Asis(e.before, e.m) /\ e.rest>> }
ReduceBad(e) ==
  LET low == G!Total(e.before, 1..Len(e.before), e.x) + e.b < e.y IN
  { <<"nothing to do below the value", low => e.r = "none">>,
    <<"without success the model is as before", e.r = "none" => Asis(e.before, e.m)>>,
    <<"no other peaks", G!Ids(e.m) \subseteq G!Ids(e.before) /\ \A i \in 1..Len(e.m) : Same(ById(e.before, e.m[i].id), e.m[i])>>,
    <<"required peaks are kept", \A i \in 1..Len(e.before) : e.before[i].rem \/ e.before[i].id \in G!Ids(e.m)>>,
    <<"fixed amplitudes stay", \A i \in 1..Len(e.m) : ById(e.before, e.m[i].id).afree \/ Unscaled(ById(e.before, e.m[i].id), e.m[i])>>,
    <<"data and baseline stay", e.rest>> }
(* scaling of one real peak at a point; v*, t*: value there and at the maximum, p*: place of the maximum *)
Near(a, b, tol) == G!Abs(a - b) <= tol
ScaleBad(e) ==
  IF e.r = "scaled" THEN
    { <<"value at the point is multiplied by the factor", Near(e.v1, e.want, e.tol)>>,
      <<"the maximum stays where it is", Near(e.p1, e.p0, 20)>>,
      <<"the maximum keeps its height", Near(e.t1, e.t0, e.tol)>>,
      <<"fixed parameters stay", e.fixed>>,
      <<"a peak without free parameters is not scaled", e.nfree > 0>>,
      <<"only positive factors", e.pos>> }
  ELSE { <<"a refused scaling changes nothing", e.same>>,
         <<"scaling is not refused without reason", ~e.witness>>,
         <<"refusal, nothing else", e.r = "refused">> }
Start(tr) == 0
Bad(tr, s, e) ==
  Failing({ <<"the arguments are unchanged", e.args>> } \cup
    (CASE e.op = "join" -> JoinBad(e) [] e.op = "match" -> MatchBad(e) [] e.op = "edit" -> EditBad(e)
       [] e.op = "grow" -> GrowBad(s, e) [] e.op = "reduce" -> ReduceBad(e) [] e.op = "scale" -> ScaleBad(e)))
After(tr, s, e) == s
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
