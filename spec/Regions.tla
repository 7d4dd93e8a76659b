------------------------------- MODULE Regions -------------------------------
(* Regions of one data set and their peaks: matching peaks to a height,       *)
(* joining neighbouring regions, replacing and deleting peaks.                *)
(* A peak is [id, pos, amp, kind, pfree, afree, rem]:                         *)
(*   hat   amp * max(0, 3 - |x - pos|), its amplitude can be scaled           *)
(*   bump  amp at pos, 0 elsewhere, cannot be scaled                          *)
(*   bad   a hat whose scaling fails unexpectedly                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Abs(v) == IF v < 0 THEN -v ELSE v
Height(p, x) == IF p.kind = "bump" THEN (IF p.pos = x THEN p.amp ELSE 0)
                ELSE p.amp * (IF Abs(x - p.pos) >= 3 THEN 0 ELSE 3 - Abs(x - p.pos))
RECURSIVE Total(_, _, _)
Total(ps, S, x) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN Height(ps[i], x) + Total(ps, S \ {i}, x)

(* ------------------------------- matching -------------------------------- *)
Nothing == [ret |-> FALSE, S |-> {}, num |-> 1, den |-> 1]
(* peaks which can be scaled by y/h, and the factor they end up scaled by *)
Match(ps, x, y) ==
  LET all == 1..Len(ps)
      h == Total(ps, all, x)
      some(p) == p.pfree \/ p.afree
      S == { i \in all : ps[i].kind = "hat" /\ some(ps[i]) /\ y * h > 0 /\ (ps[i].afree \/ ps[i].amp = 0 \/ y = h) }
      f == Total(ps, all \ S, x)
  IN IF h = 0 \/ \E i \in all : ps[i].kind = "bad" /\ some(ps[i]) THEN Nothing
     ELSE IF S # all /\ f < y /\ f < h THEN [ret |-> S # {}, S |-> S, num |-> y - f, den |-> h - f]
     ELSE [ret |-> S # {}, S |-> S, num |-> y, den |-> h]

(* -------------------------------- joining -------------------------------- *)
Ids(ps) == { ps[i].id : i \in 1..Len(ps) }
Sorted(ps) == \A i \in 1..Len(ps) - 1 : ps[i].pos <= ps[i + 1].pos
(* p lies beyond the border, past a peak of the other region *)
Stray(p, own, other, border, isleft) ==
  IF isleft THEN p.pos > border /\ \E i \in 1..Len(other) : other[i].pos < p.pos
  ELSE p.pos < border /\ \E i \in 1..Len(other) : other[i].pos > p.pos
StrayOrTied(p, own, other, border, isleft) ==
  IF isleft THEN p.pos > border /\ \E i \in 1..Len(other) : other[i].pos <= p.pos
  ELSE p.pos < border /\ \E i \in 1..Len(other) : other[i].pos >= p.pos
(* may the joined region keep exactly the peaks in K (ids)? *)
Kept(K, l, r, border) ==
  LET P == ToSet(l) \cup ToSet(r)
      isl(p) == p \in ToSet(l)
      oth(p) == IF isl(p) THEN r ELSE l
      at == { p \in P : p.pos = border }
  IN /\ K \subseteq { p.id : p \in P }
     /\ \A p \in P \ at : IF p.rem /\ Stray(p, l, oth(p), border, isl(p)) THEN p.id \notin K
                          ELSE (p.rem /\ StrayOrTied(p, l, oth(p), border, isl(p))) \/ p.id \in K
     /\ \A p \in at : ~p.rem => p.id \in K
     /\ at # {} => \E p \in at : p.id \in K
     /\ Cardinality({ p \in at : p.rem /\ p.id \in K }) <= 1
JoinAllowed(a) == a.same /\ (a.hi1 + 1 = a.lo2 \/ a.hi2 + 1 = a.lo1)
LeftFirst(a) == a.lo1 < a.lo2

(* -------------------------------- editing -------------------------------- *)
Refused(ps, del) == \E i \in del : ~ps[i].rem
Remaining(ps, del) == { ps[i] : i \in (1..Len(ps)) \ del }

(* ------------------------- small closed world ----------------------------- *)
CONSTANTS Pos, Amps, N
VARIABLES left, right, joined, phase
rvars == <<left, right, joined, phase>>
Border == 5
Peak(i) == { [id |-> i, pos |-> p, amp |-> a, kind |-> k, pfree |-> f, afree |-> g, rem |-> r] :
             p \in Pos, a \in Amps, k \in {"hat", "bump"}, f \in {TRUE}, g \in BOOLEAN, r \in BOOLEAN }
Models(ids) == IF ids = {} THEN { <<>> }
               ELSE { m \in [1..Cardinality(ids) -> UNION { Peak(i) : i \in ids }] :
                        /\ \A i \in 1..Len(m) : m[i].id = SetToSortSeq(ids, <)[i]
                        /\ Sorted(m) }
Init == /\ left \in Models(1..N) \cup Models({}) /\ right \in Models({N + 1}) \cup Models({})
        /\ joined = <<>> /\ phase = "apart"
Arrange(K) == SetToSortSeq({ p \in ToSet(left) \cup ToSet(right) : p.id \in K },
                           LAMBDA p, q : p.pos < q.pos \/ (p.pos = q.pos /\ p.id < q.id))
Join == /\ phase = "apart"
        /\ \E K \in SUBSET (Ids(left) \cup Ids(right)) :
             /\ IF Len(left) = 0 \/ Len(right) = 0 THEN K = Ids(left) \cup Ids(right) ELSE Kept(K, left, right, Border)
             /\ joined' = Arrange(K)
        /\ phase' = "joined" /\ UNCHANGED <<left, right>>
Next == Join
Spec == Init /\ [][Next]_rvars
SortedAlways == Sorted(joined)
RequiredKept == phase = "joined" => \A p \in ToSet(left) \cup ToSet(right) : ~p.rem => p.id \in Ids(joined)
OnlyTheirs == ToSet(joined) \subseteq ToSet(left) \cup ToSet(right)
CanJoin == phase = "apart" => ENABLED Join
(* nothing on its own side of the border is lost, except a duplicate at the border *)
OwnSideKept == phase = "joined" =>
  \A p \in ToSet(left) \cup ToSet(right) :
     (IF p \in ToSet(left) THEN p.pos < Border ELSE p.pos > Border) => p.id \in Ids(joined)
(* when every peak can be scaled the sum is met; fixed amplitudes never take part unless unchanged *)
MatchMeets == \A y \in {-2, 1, 4} :
  LET m == Match(joined, Border, y) S == m.S
      h == Total(joined, 1..Len(joined), Border)
      f == Total(joined, (1..Len(joined)) \ S, Border)
  IN /\ m.den # 0
     /\ (m.ret /\ (S = 1..Len(joined) \/ (f < y /\ f < h))) => (h - f) * m.num + f * m.den = y * m.den
     /\ \A i \in S : joined[i].afree \/ joined[i].amp = 0 \/ m.num = m.den
     /\ m.S # {} => m.num * m.den > 0
=============================================================================
