------------------------------ MODULE Ripples ------------------------------
(* Termination ripples: a signal without what oscillates faster than the      *)
(* cut-off, computed on a grid that extends beyond the points asked for.       *)
(*  Signals of period N are given by the amplitudes of their harmonics,        *)
(*  0..N/2; X is the cut-off in hundredths of the lowest frequency.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
Abs(v) == IF v < 0 THEN -v ELSE v
Lesser(p, q) == IF p < q THEN p ELSE q
(* harmonic k: certainly kept, certainly removed, or within a step of the cut-off *)
Kept(X, k) == 100 * k <= X - 100
Gone(X, k) == 100 * k >= X + 100
(* amplitudes b are what is left of a *)
Cut(X, a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
   /\ Kept(X, i - 1) => Abs(b[i] - a[i]) <= tol
   /\ Gone(X, i - 1) => Abs(b[i]) <= tol
   /\ Abs(b[i]) <= tol \/ Abs(b[i] - a[i]) <= tol
(* one definite way: keep what is below *)
Clean(X, a) == [i \in 1..Len(a) |-> IF 100 * (i - 1) < X THEN a[i] ELSE 0]

(* The grid: points at first..last (steps, hundredths off zero), extended by     *)
(* at least ext/100 steps on either side, but never to the left of zero.         *)
(* g == [left, right] : numbers of points added                                  *)
Extension(first, ext, g) ==
  LET room == (first - 1) \div 100  (* points right of zero *)
      need == ext \div 100 IN
  /\ g.right >= need /\ g.right <= need + 2
  /\ g.left >= Lesser(need, room) /\ g.left <= Lesser(need + 2, room + (IF first % 100 = 0 THEN 1 ELSE 0))

(* ------------------------------- small model ----------------------------- *)
CONSTANTS Amps, H, Xs
VARIABLES sig, top, n
vars == <<sig, top, n>>
Init == n = 0 /\ top \in Xs /\ sig \in [1..H -> Amps]
(* cut again, with the same or another cut-off *)
Next == n < 2 /\ n' = n + 1 /\ \E x \in Xs : top' = x /\ sig' = Clean(x, sig)
Spec == Init /\ [][Next]_vars
Done == n > 0 => Cut(top, sig, Clean(top, sig), 0) /\ Clean(top, sig) = sig
Steady == [][n' = n + 1 => Cut(top', sig, sig', 0)]_vars
(* the lower of two cut-offs decides, whatever their order *)
Lower == \A x, z \in Xs : Clean(x, Clean(z, sig)) = Clean(Lesser(x, z), sig)
(* what is removed and what is left make up the signal; the mean is never removed *)
Parts == \A x \in Xs : (x > 0 => Clean(x, sig)[1] = sig[1]) /\ \A i \in 1..H : Clean(x, sig)[i] \in {0, sig[i]}
=============================================================================
