------------------------------- MODULE Select -------------------------------
(* Which peaks a region keeps: pruning removes peaks one at a time while that *)
(* improves the quality, augmenting adds offered peaks one at a time.         *)
(* A model is the set S of its peaks; q[S] its quality (more is better) once  *)
(* refined.  rem: the removable peaks.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

BestOf(C, q) == { c \in C : \A d \in C : q[d] <= q[c] }

(* one round: the models it may go on with, {} when it ends *)
PruneRound(S, rem, q) ==
  LET C == { S \ {p} : p \in S \cap rem }
  IN { b \in BestOf(C, q) : q[b] > q[S] }
(* another round follows only if some other removal would have been no worse *)
MorePruning(S, b, rem, q) == \E p \in S \cap rem : S \ {p} # b /\ q[S \ {p}] >= q[S]
AugmentRound(S, offered, q) ==
  LET C == { S \cup {p} : p \in offered \ S }
  IN { b \in BestOf(C, q) : q[b] > q[S] }

RECURSIVE PruneEnds(_, _, _)
PruneEnds(S, rem, q) == LET n == PruneRound(S, rem, q)
                        IN IF n = {} THEN {S}
                           ELSE UNION { IF MorePruning(S, b, rem, q) THEN PruneEnds(b, rem, q) ELSE {b} : b \in n }
RECURSIVE AugmentEnds(_, _, _)
AugmentEnds(S, off, q) == LET n == AugmentRound(S, off, q)
                          IN IF n = {} THEN {S} ELSE UNION { AugmentEnds(b, off, q) : b \in n }

(* ---- the two searches as a machine, over every quality table ---- *)
CONSTANTS Peaks, Ranks
VARIABLES model, mode, rem, off, qual, first, more
svars == <<model, mode, rem, off, qual, first, more>>
Init == /\ mode \in {"prune", "augment"}
        /\ model \in SUBSET Peaks
        /\ rem \in SUBSET Peaks
        /\ off = IF mode = "augment" THEN Peaks \ model ELSE {}
        /\ qual \in [SUBSET Peaks -> Ranks]
        /\ first = model
        /\ more = TRUE
Next == /\ UNCHANGED <<mode, rem, off, qual, first>>
        /\ more
        /\ model' \in IF mode = "prune" THEN PruneRound(model, rem, qual) ELSE AugmentRound(model, off, qual)
        /\ more' = IF mode = "prune" THEN MorePruning(model, model', rem, qual) ELSE TRUE
Spec == Init /\ [][Next]_svars
RequiredKept == (first \ rem) \subseteq model
NeverWorse == qual[model] >= qual[first]
OnlyKnown == model \subseteq (first \cup off)
Monotone == IF mode = "prune" THEN model \subseteq first ELSE first \subseteq model
(* the ends are exactly the models the searches are said to lead to *)
End == ~more \/ ~ENABLED Next
EndsAgree == End => model \in IF mode = "prune" THEN PruneEnds(first, rem, qual) ELSE AugmentEnds(first, off, qual)
EndIsOptimal == End /\ more =>
   IF mode = "prune" THEN \A p \in model \cap rem : qual[model \ {p}] <= qual[model]
   ELSE \A p \in off \ model : qual[model \cup {p}] <= qual[model]
Improves == [][qual[model'] > qual[model]]_svars
=============================================================================
