----------------------------- MODULE Sampling -----------------------------
(* Sampling of a pair distribution function: the grids, the interpolation   *)
(* onto them, the uncertainties there, and the descent from the working     *)
(* grid to the Nyquist grid.                                                *)
(* Positions are whole numbers of one eighth of the data spacing (U = 8).   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
U == 8
Abs(v) == IF v < 0 THEN -v ELSE v
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(* equally spaced points from the first to before the last common position  *)
First(x, lo) == Max(x[1], lo)
Last(x, hi) == Min(x[Len(x)], hi)
GridSize(a, b, dr) == IF b <= a THEN 0 ELSE ((b - a) + dr - 1) \div dr
Grid(x, lo, hi, dr) == LET a == First(x, lo) IN [k \in 1..GridSize(a, Last(x, hi), dr) |-> a + (k - 1) * dr]

(* band limited interpolation: sum of y times sin(pi u) / (pi u), u in eighths *)
SinTab == <<0, 3827, 7071, 9239, 10000, 9239, 7071, 3827, 0, -3827, -7071, -9239, -10000, -9239, -7071, -3827>>
Sinc(m) == (* times 10000 *)
  IF m = 0 THEN 10000 ELSE LET a == Abs(m) IN (SinTab[(a % 16) + 1] * 80000) \div (31416 * a)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Resampled(x, y, r) == SumTo([i \in 1..Len(x) |-> y[i] * Sinc(r - x[i])], Len(x)) (* times 10000 *)

(* straight interpolation, times 8 *)
Lin8(x, v, r) ==
  IF r >= x[Len(x)] THEN U * v[Len(x)]
  ELSE LET i == CHOOSE i \in 1..(Len(x) - 1) : x[i] <= r /\ r < x[i + 1]
       IN (U - (r - x[i])) * v[i] + (r - x[i]) * v[i + 1]
(* square of the factor on uncertainties, as a fraction <<num, den>> *)
Scale2(nyq, scale, qdr, dr) == IF qdr > 0 /\ nyq /\ scale /\ qdr > dr THEN <<qdr, dr>> ELSE <<1, 1>>

(* --------------------- descent to the Nyquist grid ---------------------- *)
CONSTANTS MaxFree, MaxCap
VARIABLES cap, free, grid, points, phase
vars == <<cap, free, grid, points, phase>>
(* cap: Nyquist intervals in the span; free: free parameters of the model   *)
Init == cap \in 1..MaxCap /\ free \in 0..MaxFree /\ grid = "work" /\ points = Max(4 * cap, 2) /\ phase = "sample"
Resample == /\ phase = "sample" /\ phase' = "prune"
            /\ IF free >= cap THEN grid' = "over" /\ points' = free + 1 ELSE grid' = "nyquist" /\ points' = cap + 1
            /\ UNCHANGED <<cap, free>>
Prune == /\ phase = "prune"
         /\ \E n \in 0..free : /\ free' = n
                               /\ phase' = IF grid = "nyquist" \/ n = free THEN "report" ELSE "sample"
         /\ UNCHANGED <<cap, grid, points>>
Next == Resample \/ Prune
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Reports == phase = "report" => grid = "nyquist" \/ (grid = "over" /\ free >= cap)
Enough == phase = "report" => points > free
Fewer == [][free' <= free]_vars
Ends == <>(phase = "report")
(* the grid never leaves what data and range have in common, and is as dense as asked *)
GridsRight == \A n \in 1..4, lo \in -3..20, hi \in 4..34, dr \in 1..9 :
   LET x == [i \in 1..n |-> U * i]
       g == Grid(x, lo, hi, dr) IN
   First(x, lo) < Last(x, hi) =>
      /\ Len(g) >= 1 /\ g[1] = First(x, lo) /\ g[Len(g)] < Last(x, hi) /\ g[Len(g)] + dr >= Last(x, hi)
      /\ \A k \in 1..(Len(g) - 1) : g[k + 1] - g[k] = dr
SincRight == Sinc(0) = 10000 /\ \A m \in 1..60 : Sinc(m) = Sinc(-m) /\ ((m % 8 = 0) => Sinc(m) = 0) /\ Sinc(m) <= Sinc(0)
===========================================================================
