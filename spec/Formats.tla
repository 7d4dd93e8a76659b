------------------------------ MODULE Formats ------------------------------
(* One peak and the parameter formats it is given and read in.               *)
(*  peak == [pos, wid, area] : position, full width at half maximum, area    *)
(*  formats: internal (position, angle, area), pwa (position, width, area),  *)
(*  mu_sigma_area.  Numbers are fixed point, 10^6; angles are given in       *)
(*  twelfths of pi where they are known.                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
Abs(v) == IF v < 0 THEN -v ELSE v
Near(a, b, t) == Abs(a - b) <= t
(* a*b/10^6 without leaving 32 bits, for 0 <= a, b <= 4*10^7 *)
Mul(a, b) == (a \div 1000) * (b \div 1000) + ((a \div 1000) * (b % 1000) + (a % 1000) * (b \div 1000)) \div 1000 + ((a % 1000) * (b % 1000)) \div 1000000
PerSigma == 424661  (* sigma / width *)
Height == 939437    (* height * width / area *)
Sigma(w) == Mul(w, PerSigma)
(* width from sigma: 2 sigma + 0.354820 sigma *)
FromSigma(s) == 2 * s + Mul(s, 354820)
(* width / largest width at the angles -6..6 (twelfths of pi): |cos(pi/4 - angle/2)| *)
Table == <<0, 130526, 258819, 382683, 500000, 608761, 707107, 793353, 866025, 923880, 965926, 991445, 1000000>>
Angles == -6..6
(* the angle within -6..6 that describes the same width *)
Fold(k) == CHOOSE c \in Angles : (c - k) % 24 = 0 \/ (c + k - 12) % 24 = 0
(* M: the largest width, in hundredths *)
Width(M, k) == (M * Table[Fold(k) + 7]) \div 100
Resolve(f, def_in, def_out) == IF f = "default_input" THEN def_in ELSE IF f = "default_output" THEN def_out ELSE f
Aliases == {"default_input", "default_output"}
(* the peak that parameters p of format f describe; p[2] is in twelfths of pi for internal ones *)
Known(M, f, p) ==
  CASE f = "internal" -> [pos |-> p[1], wid |-> Width(M, p[2]), area |-> Abs(p[3]), ang |-> Fold(p[2])]
    [] f = "pwa" -> [pos |-> p[1], wid |-> p[2], area |-> p[3], ang |-> 99]
    [] f = "mu_sigma_area" -> [pos |-> p[1], wid |-> FromSigma(p[2]), area |-> p[3], ang |-> 99]
(* parameters that may not be taken: the peak is wider than the largest width *)
TooWide(M, f, p) == f # "internal" /\ Known(M, f, p).wid > M * 10000 + 5
(* q reads the peak in format f, up to t *)
Reads(pk, f, q, t) ==
  /\ Len(q) = 3 /\ Near(q[1], pk.pos, 2) /\ Near(q[3], pk.area, 2)
  /\ CASE f = "internal" -> Abs(q[2]) <= 1570797 /\ (pk.ang = 99 \/ Near(q[2], (pk.ang * 2617994) \div 10, t))
       [] f = "pwa" -> Near(q[2], pk.wid, t)
       [] f = "mu_sigma_area" -> Near(q[2], Sigma(pk.wid), t)
(* the curve: at position + j widths/2 it has height * 2^(-j^2); av: such values times the width *)
Bell(pk, j, av) == Near(av * 2 ^ (j * j), Mul(pk.area, Height), 2 ^ (j * j) + Mul(pk.area, 20) + 5)

(* ------------------------------ closed world ------------------------------ *)
(* a peak is made from parameters, read, and made again from what was read    *)
CONSTANTS KMax, MMax
VARIABLES M, pk, fmt, n
fvars == <<M, pk, fmt, n>>
In(p, f) == IF f = "internal" THEN <<p.pos, p.ang, p.area>> ELSE IF f = "pwa" THEN <<p.pos, p.wid, p.area>> ELSE <<p.pos, Sigma(p.wid), p.area>>
Init == /\ M \in { 25 * m : m \in 1..MMax } /\ fmt = "internal" /\ n = 0
        /\ \E k \in -KMax..KMax, a \in {-2, 0, 3} : pk = Known(M, "internal", <<5000000, k, a * 1000000>>)
Next == \E f \in {"internal", "pwa", "mu_sigma_area"} :
  /\ n < 3 /\ n' = n + 1 /\ (f = "internal" => pk.ang # 99)
  /\ pk' = Known(M, f, In(pk, f)) /\ fmt' = f /\ UNCHANGED M
Spec == Init /\ [][Next]_fvars
(* making the peak again from any reading gives the same peak *)
Same == [][Near(pk.wid, pk'.wid, 8) /\ pk.pos = pk'.pos /\ pk.area = pk'.area]_fvars
Canonical == pk.area >= 0 /\ pk.wid >= 0 /\ pk.wid <= M * 10000 + 8 /\ (pk.ang = 99 \/ pk.ang \in Angles)
(* angles are canonical once: distinct ones have distinct widths, in order; folding is periodic and reflects *)
Distinct == \A a, b \in Angles : a < b => Width(M, a) < Width(M, b)
Folds == \A k \in -40..40 : Fold(Fold(k)) = Fold(k) /\ Fold(k + 24) = Fold(k) /\ Fold(12 - k) = Fold(k)
Squares == \A a \in Angles : Near(Mul(Width(100, a), Width(100, a) \div 2) + Mul(Width(100, -a), Width(100, -a) \div 2), 500000, 4)
==============================================================================
