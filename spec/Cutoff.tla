------------------------------- MODULE Cutoff -------------------------------
(* The cut-off found in the data.  The spectrum of the data is run through:     *)
(* at every step the spread of its first n values is put beside the spread of    *)
(* the n values that follow (windows one after the other, equally long).  Where  *)
(* the signal ends the ratio stops rising: the cut-off is the step at which it   *)
(* bends down most sharply, the last such step if there are several.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
Sum(s) == FoldSeq(LAMBDA v, acc : acc + v, 0, s)
Sq(s) == [i \in 1..Len(s) |-> s[i] * s[i]]
(* Len(s)^2 times the variance *)
Spread(s) == Len(s) * Sum(Sq(s)) - Sum(s) * Sum(s)
Left(d, n) == SubSeq(d, 1, n)
Right(d, n) == SubSeq(d, n + 1, 2 * n)
(* windows of 2, 3, ..., as long as both fit *)
Count(d) == IF Len(d) < 4 THEN 0 ELSE Len(d) \div 2 - 1
(* k: a ratio of spreads, squared, in thousandths *)
Ratio(d, n, k, tol) == LET l == Spread(Left(d, n)) r == Spread(Right(d, n)) IN
  r > 0 => LET q == (1000 * l) \div r IN k >= q - tol - q \div 1000000 /\ k <= q + tol + q \div 1000000
(* how sharply r bends down at i, 1 < i < Len(r) *)
Bend(r, i) == (r[i] - r[i - 1]) - (r[i + 1] - r[i])
Inner(r) == 2..(Len(r) - 1)
Sharpest(r, i, tol) ==
  /\ i \in Inner(r)
  /\ \A j \in Inner(r) : Bend(r, j) <= Bend(r, i) + tol
  /\ tol = 0 => \A j \in Inner(r) : j > i => Bend(r, j) < Bend(r, i)
(* The i-th ratio is that of windows of i+1 values: the signal's values are those  *)
(* of the steps 0..i, so that it ends at step i.                                   *)
(* Determined when there is an inner ratio at all: the spectrum of n points has n  *)
(* values.                                                                         *)
Determined(n) == n \div 2 - 1 >= 3

(* ------------------------------- small model ----------------------------- *)
(* the windows grow: the left one takes the first value of the right one, which  *)
(* takes the next two; sums are kept up to date.                                 *)
CONSTANTS Vals, N
VARIABLES d, n, l, r
vars == <<d, n, l, r>>
Sums(s) == [c |-> Len(s), s |-> Sum(s), q |-> Sum(Sq(s))]
Take(w, v) == [c |-> w.c + 1, s |-> w.s + v, q |-> w.q + v * v]
Drop(w, v) == [c |-> w.c - 1, s |-> w.s - v, q |-> w.q - v * v]
SpreadOf(w) == w.c * w.q - w.s * w.s
Init == d \in [1..N -> Vals] /\ n = 2 /\ l = Sums(Left(d, 2)) /\ r = Sums(Right(d, 2))
Next == /\ 2 * n + 2 <= N
        /\ n' = n + 1
        /\ l' = Take(l, d[n + 1])
        /\ r' = Take(Take(Drop(r, d[n + 1]), d[2 * n + 1]), d[2 * n + 2])
        /\ UNCHANGED d
Spec == Init /\ [][Next]_vars
Windows == /\ l = Sums(Left(d, n)) /\ r = Sums(Right(d, n))
           /\ SpreadOf(l) = Spread(Left(d, n)) /\ SpreadOf(r) = Spread(Right(d, n))
           /\ n - 1 <= Count(d)
(* spreads are never negative, zero only for equal values, and know neither offset nor sign *)
Spreads == /\ SpreadOf(l) >= 0 /\ (SpreadOf(l) = 0) = (\A i \in 1..n : d[i] = d[1])
           /\ \A c \in {-3, 5} : Spread([i \in 1..n |-> d[i] + c]) = SpreadOf(l)
           /\ Spread([i \in 1..n |-> -2 * d[i]]) = 4 * SpreadOf(l)
(* one step is the sharpest, in exact arithmetic *)
Chosen == LET q == [i \in 1..(N \div 2 - 1) |-> Sum(Sq(Left(d, i + 1)))] IN
  Len(q) >= 3 => Cardinality({ i \in 1..Len(q) : Sharpest(q, i, 0) }) = 1
(* a signal of height a up to step m and of height 1 beyond is seen to end at m *)
Swing(len, m, a) == [i \in 1..len |-> (IF i % 2 = 0 THEN 1 ELSE -1) * (IF i <= m + 1 THEN a ELSE 1)]
Ratios(x) == [i \in 1..Count(x) |-> (1000 * Spread(Left(x, i + 1))) \div Spread(Right(x, i + 1))]
ASSUME \A len \in {20, 27} : \A m \in { v \in 5..(Count([i \in 1..len |-> 0]) - 1) : v % 2 = 1 } : \A a \in {5, 20} : Sharpest(Ratios(Swing(len, m, a)), m, 0)
ASSUME \A k \in 0..20 : Determined(k) = (Inner([i \in 1..Count([j \in 1..k |-> 0]) |-> 0]) # {})
=============================================================================
