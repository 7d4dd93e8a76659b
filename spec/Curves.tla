------------------------------- MODULE Curves --------------------------------
(* Definitions of the baseline functions, exact in integers.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
RECURSIVE Pow(_, _), HornerUp(_, _, _), SumTo(_, _, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
(* highest degree first; no coefficients: zero *)
HornerUp(c, x, i) == IF i = 0 THEN 0 ELSE HornerUp(c, x, i - 1) * x + c[i]
Poly(c, x) == HornerUp(c, x, Len(c))
PolyD(n, i, x) == Pow(x, n - i)
(* lowest degree first, as the user functions of the checks have it *)
SumTo(c, x, k) == IF k = 0 THEN 0 ELSE SumTo(c, x, k - 1) + c[k] * Pow(x, k - 1)
User(w, c, x) == w * SumTo(c, x, Len(c))
UserD(w, i, x) == w * Pow(x, i - 1)
(* sphere of scale s and radius R at r = R*j/4, times 4096: -s r (1 - 3/4 (r/R) + (r/R)^3/16), zero outside 0..2R *)
Abs(v) == IF v < 0 THEN -v ELSE v
Sgn(v) == IF v < 0 THEN -1 ELSE IF v = 0 THEN 0 ELSE 1
Shape(j) == IF j <= 0 \/ j >= 8 THEN 0 ELSE j * (1024 - 192 * j + j * j * j)
Sphere(s, R, j) == -(Abs(s) * Abs(R) * Shape(j))
SphereDs(s, R, j) == -(Sgn(s) * Abs(R) * Shape(j))
SphereDR(s, R, j) == IF j <= 0 \/ j >= 8 THEN 0 ELSE Sgn(R) * Abs(s) * 3 * j * j * (j * j - 64)
(* a cubic with coefficients c at x = k/4, times 64 *)
Cubic64(c, k) == c[1] * k * k * k + c[2] * k * k * 4 + c[3] * k * 16 + c[4] * 64
Near(a, b, t) == Abs(a - b) <= t
(* points <<x, y>> in order of x; what a curve through them may not do *)
Through(px, py, x, v, t) == \A i \in 1..Len(px) : px[i] = x => Near(py[i], v, t)

(* ------------------------------ closed world ------------------------------ *)
CONSTANTS CMax, XMax
VARIABLES c, x, s, r, j
cvars == <<c, x, s, r, j>>
Co == -CMax..CMax
Init == c \in UNION { [1..n -> Co] : n \in 0..3 } /\ x \in (-XMax)..XMax /\ s \in Co /\ r \in Co \ {0} /\ j \in -1..9
Next == UNCHANGED cvars
Spec == Init /\ [][Next]_cvars
(* the derivative by a coefficient is the change it causes, and values are linear in the coefficients *)
Changed == \A i \in 1..Len(c) :
  /\ Poly([c EXCEPT ![i] = @ + 1], x) - Poly(c, x) = PolyD(Len(c), i, x)
  /\ User(s, [c EXCEPT ![i] = @ + 1], x) - User(s, c, x) = UserD(s, i, x)
Reverse_(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Agree == Poly(c, x) = User(1, Reverse_(c), x) /\ Poly(<<>>, x) = 0
(* signs do not matter; the derivative by the scale has the value's shape; continuous at the edges *)
Round == /\ Sphere(s, r, j) = Sphere(-s, r, j) /\ Sphere(s, r, j) = Sphere(s, -r, j) /\ Sphere(s, r, j) <= 0
         /\ s * SphereDs(s, r, j) = Sphere(s, r, j)
         /\ Sphere(s, r, 8) = 8 * (1024 - 192 * 8 + 512) * s /\ SphereDs(-s, r, j) = -SphereDs(s, r, j) /\ SphereDR(s, -r, j) = -SphereDR(s, r, j)
(* the value at a fixed r falls (more negative) as the radius grows *)
Falls == \A k \in 1..7 : s # 0 /\ r > 0 => SphereDR(s, r, k) <= 0
==============================================================================
