----------------------------- MODULE SelectTrace -----------------------------
(* Recorded pruning and augmenting.  Peaks are numbered 1..n; sets of peaks   *)
(* are coded as bit masks; t[mask + 1]: table value of the model, c: price of *)
(* a free parameter, nfree[p]: free parameters of peak p.                     *)
EXTENDS TraceBatch
G == INSTANCE Select WITH Peaks <- {}, Ranks <- {}, model <- 0, mode <- 0, rem <- 0, off <- 0, qual <- 0, first <- 0, more <- FALSE
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE AddUp(_, _)
AddUp(f, S) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN f[p] + AddUp(f, S \ {p})
Mask(S) == IF S = {} THEN 0 ELSE AddUp([p \in S |-> Pow2(p - 1)], S)
SetOf(m) == { m[i] : i \in 1..Len(m) }
QualOf(e, S) == e.t[Mask(S) + 1] - e.c * (IF S = {} THEN 0 ELSE AddUp([p \in S |-> e.nfree[p]], S))
Q(e) == [S \in SUBSET (1..e.n) |-> QualOf(e, S)]
Rem(e) == { p \in 1..e.n : e.rem[p] }
Start(tr) == 0
Common(e) == {
  <<"no peak twice", Cardinality(SetOf(e.after)) = Len(e.after)>>,
  <<"flags and fixed parameters of the peaks kept", e.kept>>,
  <<"baseline and data untouched", e.rest>> }
Bad(tr, s, e) ==
  LET S0 == SetOf(e.before)
      S1 == SetOf(e.after)
      q == IF e.op \in {"prune", "augment"} THEN Q(e) ELSE [x \in {{}} |-> 0]
  IN Failing(Common(e) \cup
    (IF e.op = "prune" THEN {
       <<"required peaks survive pruning", (S0 \ Rem(e)) \subseteq S1>>,
       <<"pruning adds nothing", S1 \subseteq S0>>,
       <<"pruning never worsens the model", q[S1] >= q[S0]>>,
       <<"pruning ends where removing the best peak each time leads", S1 \in G!PruneEnds(S0, Rem(e), q)>>,
       <<"the reported quality is that of the model", e.qual = q[S1]>> }
     ELSE IF e.op = "augment" THEN {
       <<"required peaks survive augmenting", S0 \subseteq S1>>,
       <<"augmenting adds only offered peaks", S1 \subseteq (S0 \cup SetOf(e.offered))>>,
       <<"augmenting never worsens the model", q[S1] >= q[S0]>>,
       <<"augmenting ends where adding the best peak each time leads", S1 \in G!AugmentEnds(S0, SetOf(e.offered), q)>>,
       <<"augmented model is sorted", e.sorted>>,
       <<"offered peaks are not changed", e.source>>,
       <<"the reported quality is that of the model", e.qual = q[S1]>> }
     ELSE IF e.op = "realprune" THEN {
       <<"required peaks survive pruning", e.required>>,
       <<"pruning never adds peaks", Len(e.after) <= Len(e.before)>>,
       <<"pruning never worsens the model", e.q1 >= e.q0>> }
     ELSE {
       <<"required peaks survive augmenting", e.required>>,
       <<"augmenting never worsens the model", e.q1 >= e.q0>>,
       <<"augmented model is sorted", e.sorted>>,
       <<"each trial starts with an offered peak as it was offered", \A k \in 1..Len(e.tries) - 1 : e.tries[k] # <<>>>>,
       <<"offered peaks are not changed", e.source>> }))
After(tr, s, e) == s
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
