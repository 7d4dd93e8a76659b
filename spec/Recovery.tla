------------------------------ MODULE Recovery ------------------------------
(* Finding the peaks data was made of.  Peaks stand apart on a line of places;   *)
(* a peak of height h gives 2h at its place and h next to it.  The search adds a *)
(* peak at the tallest thing not yet explained, may once in a while take         *)
(* something else for a peak (Err), fits the heights of the peaks it has, and    *)
(* removes the peaks the data is better off without.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS L, MaxH, Gap, Errs
VARIABLES hidden, places, errs
vars == <<hidden, places, errs>>
Places == 1..L
Abs(v) == IF v < 0 THEN -v ELSE v
Fns(S) == { f \in [Places -> 0..MaxH] : \A x \in Places : x \notin S => f[x] = 0 }
Support(f) == { x \in Places : f[x] > 0 }
Apart(f) == \A i, j \in Support(f) : i # j => Abs(i - j) >= Gap
At(f, x) == 2 * f[x] + (IF x > 1 THEN f[x - 1] ELSE 0) + (IF x < L THEN f[x + 1] ELSE 0)
Rest(f, x) == At(hidden, x) - At(f, x)
RECURSIVE Left(_, _)
Left(f, x) == IF x > L THEN 0 ELSE Rest(f, x) * Rest(f, x) + Left(f, x + 1)
(* the heights which leave least of the data unexplained *)
Fit(S) == LET F == Fns(S) IN CHOOSE f \in F : \A g \in F : Left(f, 1) <= Left(g, 1)
Cost(S) == Left(Fit(S), 1) + Cardinality(S)
Tallest(f) == { x \in Places : Rest(f, x) > 0 /\ \A y \in Places : Rest(f, y) <= Rest(f, x) }
Better(x) == Cost(places \ {x}) < Cost(places)
Init == hidden \in { f \in Fns(Places) : Apart(f) } /\ places = {} /\ errs = 0
Find == \E x \in Tallest(Fit(places)) : x \notin places /\ places' = places \cup {x} /\ UNCHANGED <<hidden, errs>>
Err == errs < Errs /\ errs' = errs + 1 /\ (\E x \in Places \ places : places' = places \cup {x}) /\ UNCHANGED hidden
Prune == (\E x \in places : Better(x) /\ places' = places \ {x}) /\ UNCHANGED <<hidden, errs>>
Next == Find \/ Err \/ Prune
Spec == Init /\ [][Next]_vars
Stopped == (\A x \in Tallest(Fit(places)) : x \in places) /\ \A x \in places : ~Better(x)
(* once nothing is left to find or to remove, what was found is what is there *)
All == Stopped => places = Support(hidden) /\ Fit(places) = hidden

(* ---- what a search on real data owes, in thousandths ---- *)
(* Same: as many peaks, the k-th of one for the k-th of the other *)
Near(a, b, tol) == Abs(a - b) <= tol
Placed(hid, got, tol) == Len(got) = Len(hid) /\ \A k \in 1..Len(hid) : Near(got[k].pos, hid[k].pos, tol)
Sized(hid, got) == \A k \in 1..Len(hid) : k <= Len(got) =>
                      3 * Abs(got[k].w - hid[k].w) <= hid[k].w /\ 3 * Abs(got[k].a - hid[k].a) <= hid[k].a
Sorted(got) == \A k \in 1..(Len(got) - 1) : got[k].pos <= got[k + 1].pos
=============================================================================
