-------------------------------- MODULE Cov --------------------------------
(* A covariance filed for a model.                                          *)
(*  part == [pars, free, tr]  (tr: the part knows the doubled format)        *)
(*  c    == [def, parts, M]   M is the full matrix over all parameters       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

Ok(v) == [k |-> "ok", v |-> v]
Refused == [k |-> "refused", v |-> 0]
Out(c, r) == [c |-> c, r |-> r]
Undefined == [def |-> FALSE, parts |-> <<>>, M |-> <<>>]

NP(parts) == Len(FlattenSeq([i \in 1..Len(parts) |-> parts[i].pars]))
Keys(parts) == (* <<part, parameter>> in order *)
  FlattenSeq([i \in 1..Len(parts) |-> [k \in 1..Len(parts[i].pars) |-> <<i, k>>]])
IsFree(parts, n) == LET k == Keys(parts)[n] IN parts[k[1]].free[k[2]]
FreeOrder(parts) == SelectSeq([n \in 1..NP(parts) |-> n], LAMBDA n : IsFree(parts, n))
NF(parts) == Len(FreeOrder(parts))
RankOf(parts, n) == Cardinality({ m \in 1..n : IsFree(parts, m) })
Square(m) == \A i \in 1..Len(m) : Len(m[i]) = Len(m)
FitsShape(parts, m) == Square(m) /\ (Len(m) = NP(parts) \/ Len(m) = NF(parts))
File(parts, m) ==
  IF Len(m) = NP(parts) THEN m
  ELSE [a \in 1..NP(parts) |-> [b \in 1..NP(parts) |->
          IF IsFree(parts, a) /\ IsFree(parts, b) THEN m[RankOf(parts, a)][RankOf(parts, b)] ELSE 0]]
Set(c, parts, m) == IF FitsShape(parts, m) THEN [def |-> TRUE, parts |-> parts, M |-> File(parts, m)] ELSE c

Index(parts, key) == CHOOSE n \in 1..NP(parts) : Keys(parts)[n] = key

(* format change of the selected parts by factor num/den per parameter *)
Factor(c, sel, n, num, den) ==
  LET p == Keys(c.parts)[n][1] IN IF p \in sel /\ c.parts[p].tr THEN <<num, den>> ELSE <<1, 1>>
Transform(c, sel, num, den) ==
  [def |-> TRUE,
   parts |-> [p \in 1..Len(c.parts) |->
      IF p \in sel /\ c.parts[p].tr
      THEN [c.parts[p] EXCEPT !.pars = [k \in 1..Len(@) |-> (@[k] * num) \div den]] ELSE c.parts[p]],
   M |-> [a \in 1..NP(c.parts) |-> [b \in 1..NP(c.parts) |->
      LET fa == Factor(c, sel, a, num, den)
          fb == Factor(c, sel, b, num, den)
      IN (c.M[a][b] * fa[1] * fb[1]) \div (fa[2] * fb[2])]]]

(* only the parts ps (their numbers, in the order given) are kept *)
Select(c, ps) ==
  IF ~c.def \/ ps = <<>> THEN Undefined
  ELSE LET parts == [i \in 1..Len(ps) |-> c.parts[ps[i]]]
           at(n) == LET k == Keys(parts)[n] IN Index(c.parts, <<ps[k[1]], k[2]>>) IN
       [def |-> TRUE, parts |-> parts, M |-> [a \in 1..NP(parts) |-> [b \in 1..NP(parts) |-> c.M[at(a)][at(b)]]]]

(* ------------------------------- small model ----------------------------- *)
CONSTANTS Vals
VARIABLES c, act
vars == <<c, act>>
PartSet == { [pars |-> <<16, 32>>, free |-> <<f, g>>, tr |-> t] : f \in BOOLEAN, g \in BOOLEAN, t \in BOOLEAN }
Models == { <<p>> : p \in PartSet } \cup { <<p, q>> : p \in PartSet, q \in { [pars |-> <<48>>, free |-> <<f>>, tr |-> TRUE] : f \in BOOLEAN } }
Sym(n, d) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN d[i] ELSE 16 * (i + j)]]
Mats(parts) == { Sym(n, d) : n \in {NF(parts), NP(parts), 3}, d \in [1..3 -> Vals] }
Init == c = Undefined /\ act = "init"
DoSet == \E p \in Models : \E m \in Mats(p) : c' = Set(c, p, m) /\ act' = "set"
DoClear == c' = Undefined /\ act' = "clear"
DoDouble == c.def /\ \A p \in 1..Len(c.parts) : c.parts[p].pars[1] <= 48 /\ \E sel \in SUBSET (1..Len(c.parts)) : c' = Transform(c, sel, 2, 1) /\ act' = "double"
DoSelect == c.def /\ \E ps \in { <<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>> } : (\A i \in 1..Len(ps) : ps[i] <= Len(c.parts)) /\ c' = Select(c, ps) /\ act' = "select"
Next == DoSelect \/ DoSet \/ DoClear \/ DoDouble
Spec == Init /\ [][Next]_vars
Shape == c.def => Len(c.M) = NP(c.parts) /\ Square(c.M)
Symmetric == c.def => \A a, b \in 1..NP(c.parts) : c.M[a][b] = c.M[b][a]
(* there and back *)
Back == c.def => \A sel \in SUBSET (1..Len(c.parts)) : Transform(Transform(c, sel, 2, 1), sel, 1, 2) = c
(* a selection of everything changes nothing; order is only order *)
Selected == c.def => /\ Select(c, [i \in 1..Len(c.parts) |-> i]) = c
                     /\ Len(c.parts) = 2 => Select(Select(c, <<2, 1>>), <<2, 1>>) = c /\ Select(Select(c, <<2, 1>>), <<2>>) = Select(c, <<1>>)
(* packing order: the free parameters read back the matrix given for them *)
ReadsBack == act = "init" => \A p \in Models : \A m \in Mats(p) : Len(m) = NF(p) =>
   /\ \A i, j \in 1..Len(m) : File(p, m)[FreeOrder(p)[i]][FreeOrder(p)[j]] = m[i][j]
   /\ \A a \in 1..NP(p) : (~IsFree(p, a) /\ NF(p) < NP(p)) => \A b \in 1..NP(p) : File(p, m)[a][b] = 0 /\ File(p, m)[b][a] = 0
=============================================================================
