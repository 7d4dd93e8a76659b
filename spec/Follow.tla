------------------------------- MODULE Follow -------------------------------
(* What is found follows the data.  Data may be told in other units of length    *)
(* and of intensity (g.a, g.b), on top of another baseline (g.c) or from another *)
(* origin of positions (g.s); what is found is then the same, told the same way. *)
(* Every quantity has a dimension <<powers of length, powers of intensity>> and  *)
(* moves with the origin or the baseline or with neither.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

(* ------------------------------- quantities ------------------------------ *)
(* kinds of parts: "g" Gaussian, "o" Gaussian over r, 0.. polynomial of that     *)
(* degree (their parameters: highest degree first), "-" without parameters       *)
Peak == {"g", "o"}
NPar(kind, deg) == IF kind \in Peak THEN 3 ELSE IF kind = "p" THEN deg + 1 ELSE 0
Dim(kind, deg, i) ==
  CASE kind = "g" -> <<<<1, 0>>, <<0, 0>>, <<1, 1>>>>[i]
    [] kind = "o" -> <<<<1, 0>>, <<0, 0>>, <<2, 1>>>>[i]
    [] kind = "G" -> <<<<1, 0>>, <<1, 0>>, <<1, 1>>>>[i]  \* reported: position, width, area
    [] kind = "O" -> <<<<1, 0>>, <<1, 0>>, <<2, 1>>>>[i]
    [] kind = "p" -> <<i - 1 - deg, 1>>
Pure == <<0, 0>>
(* a number as [m |-> its mantissa in 24 bits (0: the number is zero), e |-> its  *)
(* exponent]; units change by 2^la and 2^lb; a few last bits are left to rounding *)
Abs(x) == IF x < 0 THEN -x ELSE x
Told(v, w, la, lb, dim) == LET e == v.e + la * dim[1] + lb * dim[2] IN
  IF v.m = 0 \/ w.m = 0 THEN v.m = w.m
  ELSE \/ w.e = e /\ Abs(v.m - w.m) <= 8
       \/ w.e = e + 1 /\ Abs(v.m - 2 * w.m) <= 8
       \/ w.e = e - 1 /\ Abs(2 * v.m - w.m) <= 8
(* moved by s along and by c up, in fixed point: slope is the parameter before    *)
Huge == 1000000000
Near(v, w) == Abs(v - w) <= 5 + Abs(v) \div 100000
Moved(v, w, by) == (Abs(v) > Huge /\ Abs(w) > Huge) \/ (Abs(v) <= Huge /\ Abs(w) <= Huge /\ Near(v + by, w))
Shift(kind, deg, i, slope, s, c) ==
  IF kind \in Peak THEN (IF i = 1 THEN s * 1000000 ELSE 0)
  ELSE IF i = deg + 1 THEN c * 1000000 - slope * s ELSE 0

(* ------------------------------- small model ------------------------------ *)
(* growth of regions from the tallest point above the baseline down, with what    *)
(* is seen of it: regions, whether each is worth fitting, height of its top       *)
CONSTANTS N, MaxY, Groups
VARIABLES d, g, h, seen, done
vars == <<d, g, h, seen, done>>
Data == { e \in [x : {[i \in 1..N |-> i], [i \in 1..N |-> IF i = N THEN N + 1 ELSE i]}, y : [1..N -> 0..MaxY], b : [1..N -> 0..1], u : {1}, res : {1, 2}] :
            \A i \in 1..N - 1 : e.b[i] <= e.b[i + 1] }
Apply(k, e) == [x |-> [i \in 1..N |-> k.a * e.x[i] + k.s], y |-> [i \in 1..N |-> k.b * e.y[i] + k.c],
                b |-> [i \in 1..N |-> k.b * e.b[i] + k.c], u |-> k.b * e.u, res |-> k.a * e.res]
After(k, l) == [a |-> k.a * l.a, b |-> k.b * l.b, c |-> k.b * l.c + k.c, s |-> k.a * l.s + k.s]
Above(e, i) == e.y[i] - e.b[i]
Top(e, S) == CHOOSE i \in S : \A j \in S : Above(e, j) < Above(e, i) \/ (Above(e, j) = Above(e, i) /\ i <= j)
(* regions as a set of <<lo, hi>>                                                 *)
Joined(R) == LET Touch(r, q) == r[2] + 1 = q[1] IN
  IF \E r, q \in R : Touch(r, q) THEN LET r == CHOOSE r \in R : \E q \in R : Touch(r, q)
                                         q == CHOOSE q \in R : Touch(r, q)
                                     IN (R \ {r, q}) \cup {<<r[1], q[2]>>} ELSE R
RECURSIVE Settled(_)
Settled(R) == IF Joined(R) = R THEN R ELSE Settled(Joined(R))
Grow(e, R) == LET p == Top(e, 1..N \ UNION { r[1]..r[2] : r \in R })
                  near == { r \in R : (p < r[1] /\ e.x[r[1]] - e.x[p] <= e.res) \/ (p > r[2] /\ e.x[p] - e.x[r[2]] <= e.res) }
              IN IF near = {} THEN Settled(R \cup {<<p, p>>})
                 ELSE LET r == CHOOSE r \in near : \A q \in near : r[1] >= q[1]
                      IN Settled((R \ {r}) \cup {<<IF p < r[1] THEN p ELSE r[1], IF p > r[2] THEN p ELSE r[2]>>})
View(e, R) == { <<r, \E i \in r[1]..r[2] : Above(e, i) >= e.u, Above(e, Top(e, r[1]..r[2]))>> : r \in R }
Retold(k, V) == { <<v[1], v[2], k.b * v[3]>> : v \in V }
RECURSIVE Story(_, _)
Story(e, R) == IF UNION { r[1]..r[2] : r \in R } = 1..N THEN <<View(e, R)>> ELSE <<View(e, R)>> \o Story(e, Grow(e, R))
Init == d \in Data /\ g \in Groups /\ h \in Groups /\ seen = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ seen' = Story(Apply(g, d), {}) /\ UNCHANGED <<d, g, h>>
Spec == Init /\ [][Next]_vars
Follows == done => LET s == Story(d, {}) IN seen = [i \in 1..Len(s) |-> Retold(g, s[i])]
Composes == Apply(g, Apply(h, d)) = Apply(After(g, h), d)
SmallGroups == { k \in [a : {1, 3}, b : {1, 2}, c : {0, 2}, s : {0, 4}] : TRUE }
(* quantities told twice are told once, in the product of the units               *)
Once == \A dim \in {<<1, 0>>, <<2, 1>>, <<-1, 1>>, Pure} : \A la, lb, ma, mb \in -1..1 : \A m \in 0..1 :
          LET v == [m |-> 12345678 * m, e |-> 3]
              T(z, p, q) == [m |-> z.m, e |-> z.e + p * dim[1] + q * dim[2]]
          IN Told(v, T(T(v, la, lb), ma, mb), la + ma, lb + mb, dim)
=============================================================================
