------------------------------- MODULE Guess -------------------------------
(* The first guess of a single peak from data.                              *)
(*  d == [r, y] : ascending positions and values, integers                   *)
(*  guess == [ok, pos, wid, top] : in 10^-4, 10^-4 and 1                      *)
(* Only positive values count.  The middle is the mean position weighted by   *)
(* the squared height above the lowest value; the width is such that both     *)
(* ends are met; the height is the highest value.  Ratios of values are       *)
(* powers of two at the ends, so that a half width is the distance divided    *)
(* by the square root of the power.                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
Abs(v) == IF v < 0 THEN -v ELSE v
Scale == 10000
Usable(d) == SelectSeq([i \in 1..Len(d.y) |-> i], LAMBDA i : d.y[i] > 0)
Refused == [ok |-> FALSE, pos |-> 0, wid |-> 0, top |-> 0]
Sum(q) == FoldSeq(LAMBDA a, b : a + b, 0, q)
MinOf(q) == CHOOSE v \in { q[i] : i \in 1..Len(q) } : \A i \in 1..Len(q) : v <= q[i]
MaxOf(q) == CHOOSE v \in { q[i] : i \in 1..Len(q) } : \A i \in 1..Len(q) : v >= q[i]
(* 10^4 times n/m, for n up to 2*10^9 and m up to 2*10^5 *)
Ratio(n, m) == (n \div m) * Scale + ((n % m) * Scale) \div m
(* 10^4 divided by the square root of k *)
InvRoot == <<10000, 7071, 5774, 5000, 4472, 4082, 3780, 3536, 3333>>
Power(a, b) == CHOOSE k \in 0..9 : b = a * 2 ^ k
Shrunk(dist, k) == (dist \div Scale) * InvRoot[k] + ((dist % Scale) * InvRoot[k]) \div Scale
(* a flat top: half the extent is two standard deviations *)
FlatWidth(span) == span * 5887
Guess(d, M) ==
  IF Len(d.r) # Len(d.y) \/ Len(Usable(d)) < 3 THEN Refused
  ELSE LET u == Usable(d)
           r == [i \in 1..Len(u) |-> d.r[u[i]]]
           y == [i \in 1..Len(u) |-> d.y[u[i]]]
           n == Len(u)
           lo == MinOf(y)
           hi == MaxOf(y)
           w == [i \in 1..n |-> (y[i] - lo) * (y[i] - lo)]
           pos == r[1] * Scale + Ratio(Sum([i \in 1..n |-> (r[i] - r[1]) * w[i]]), Sum(w))
           (* an end as high as any tells nothing: the extent as a whole is used *)
           half(i) == IF y[i] < hi THEN Shrunk(Abs(r[i] * Scale - pos), Power(y[i], hi))
                      ELSE Shrunk(((r[n] - r[1]) * Scale) \div 2, Power(lo, hi))
           wid == IF lo = hi THEN FlatWidth(r[n] - r[1]) ELSE half(1) + half(n)
       IN [ok |-> TRUE, pos |-> IF lo = hi THEN ((r[1] + r[n]) * Scale) \div 2 ELSE pos,
           wid |-> IF wid > M THEN M ELSE wid, top |-> hi]
Near(a, b, t) == Abs(a - b) <= t

(* ------------------------------- small model ----------------------------- *)
CONSTANTS Ys, N
VARIABLES d, last
vars == <<d, last>>
Wide == 100 * Scale
Init == /\ last = "data"
        /\ d \in UNION { { [r |-> [i \in 1..n |-> 3 * i + (i * i) \div 3], y |-> y] : y \in [1..n -> Ys] } : n \in 2..N }
Mirror(x) == [r |-> [i \in 1..Len(x.r) |-> 100 - x.r[Len(x.r) + 1 - i]], y |-> [i \in 1..Len(x.y) |-> x.y[Len(x.y) + 1 - i]]]
Taller(x) == [x EXCEPT !.y = [i \in 1..Len(@) |-> 2 * @[i]]]
Moved(x) == [x EXCEPT !.r = [i \in 1..Len(@) |-> 5 + @[i]]]
Holed(x, k) == [r |-> InsertAt(x.r, k, (IF k = 1 THEN x.r[1] - 2 ELSE x.r[k - 1]) + 1), y |-> InsertAt(x.y, k, -1)]
Next == /\ last = "data"
        /\ \/ last' = "mirror" /\ d' = Mirror(d)
           \/ last' = "taller" /\ d' = Taller(d)
           \/ last' = "moved" /\ d' = Moved(d)
           \/ last' = "holed" /\ \E k \in 1..Len(d.r) : d' = Holed(d, k)
Spec == Init /\ [][Next]_vars
G(x) == Guess(x, Wide)
Inside == G(d).ok => LET u == Usable(d) IN
   /\ G(d).pos >= d.r[u[1]] * Scale /\ G(d).pos <= d.r[u[Len(u)]] * Scale
   /\ G(d).wid > 0 /\ G(d).wid <= Wide /\ G(d).top = MaxOf(d.y)
Related == [][LET a == G(d) b == G(d') IN
   /\ a.ok = b.ok
   /\ a.ok => CASE last' = "mirror" -> Near(a.pos + b.pos, 100 * Scale, 2) /\ Near(a.wid, b.wid, 4)
                [] last' = "taller" -> Near(a.pos, b.pos, 1) /\ Near(a.wid, b.wid, 2) /\ b.top = 2 * a.top
                [] last' = "moved" -> b.pos = a.pos + 5 * Scale /\ Near(a.wid, b.wid, 2) /\ b.top = a.top
                [] last' = "holed" -> b = a]_vars
(* a whole peak sampled symmetrically is found: half the height at one step from the middle *)
Whole == last = "data" => \A h \in 1..3 : LET b == [r |-> [i \in 1..2 * h + 1 |-> i], y |-> [i \in 1..2 * h + 1 |-> 2 ^ (9 - (i - h - 1) * (i - h - 1))]] IN
   /\ Near(G(b).pos, (h + 1) * Scale, 1) /\ Near(G(b).wid, 2 * Scale, 4) /\ G(b).top = 512
=============================================================================
