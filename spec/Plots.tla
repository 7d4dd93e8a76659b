------------------------------- MODULE Plots -------------------------------
(* What a figure shows.  A model m of integer-coefficient curves on a grid    *)
(* (thousandths): m.x, m.y data; m.peaks[i] = <<a, b>> with value a + b*x,    *)
(* its position a; m.bl likewise.  A line of a figure is [x, y] (thousandths);*)
(* points are <<x, y>>.                                                       *)
EXTENDS Integers, Sequences, FiniteSets
Near(a, b) == -3 <= a - b /\ a - b <= 3
NearSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
SameLine(l, x, y) == NearSeq(l.x, x) /\ NearSeq(l.y, y)
At(c, x) == c[1] * 1000 + c[2] * x
RECURSIVE Total(_, _, _)
Total(ps, x, i) == IF i = 0 THEN 0 ELSE At(ps[i], x) + Total(ps, x, i - 1)
Base(m, x) == At(m.bl, x)
OnePeak(m, i, x) == Base(m, x) + At(m.peaks[i], x)
Whole(m, x) == Base(m, x) + Total(m.peaks, x, Len(m.peaks))
Along(m, V(_)) == [j \in 1..Len(m.x) |-> V(m.x[j])]
Resid(m) == [j \in 1..Len(m.x) |-> m.y[j] - Whole(m, m.x[j])]
(* the curves which must be there, as lines over the grid *)
Individual(m) == <<[x |-> m.x, y |-> m.y]>> \o [i \in 1..Len(m.peaks) |-> [x |-> m.x, y |-> Along(m, LAMBDA x : OnePeak(m, i, x))]]
Joined(m) == <<[x |-> m.x, y |-> m.y], [x |-> m.x, y |-> Along(m, LAMBDA x : Whole(m, x))]>>
(* the lines are those expected, in any order, as often as expected *)
SameLines(ls, want) ==
  /\ Len(ls) = Len(want)
  /\ \A i \in 1..Len(want) : Cardinality({ j \in 1..Len(ls) : SameLine(ls[j], want[i].x, want[i].y) })
                             = Cardinality({ j \in 1..Len(want) : SameLine(want[j], want[i].x, want[i].y) })
Contains(ls, want) == \A i \in 1..Len(want) : \E j \in 1..Len(ls) : SameLine(ls[j], want[i].x, want[i].y)
Mul(v, k) == (v * k) \div 1000
Scaled(s, k) == [j \in 1..Len(s) |-> Mul(s[j], k)]
PointsNear(ps, want) == /\ \A p \in ps : \E q \in want : Near(p[1], q[1]) /\ Near(p[2], q[2])
                        /\ \A q \in want : \E p \in ps : Near(p[1], q[1]) /\ Near(p[2], q[2])
SetOf(s) == { s[i] : i \in 1..Len(s) }
(* the best of a sequence of probabilities *)
Best(p, i) == \A j \in 1..Len(p) : p[j] <= p[i]
Most(p) == CHOOSE v \in SetOf(p) : \A j \in 1..Len(p) : p[j] <= v

(* -------------------------- small closed world ----------------------------- *)
(* A series of results, one of them possibly current; work changes the current *)
(* copy; an animation visits results and returns to where it was.              *)
CONSTANTS NumResults
VARIABLES recorded, current, copy, frames, todo, before
vars == <<recorded, current, copy, frames, todo, before>>
None == 0
Models == 1..2
Init == /\ recorded \in [1..NumResults -> Models] /\ current = None /\ copy = 0
        /\ frames = <<>> /\ todo = <<>> /\ before = None
Select(i) == current' = i /\ copy' = (IF i = None THEN 0 ELSE recorded[i])
Choose == todo = <<>> /\ (\E i \in 0..NumResults : Select(i)) /\ frames' = <<>> /\ UNCHANGED <<recorded, todo, before>>
Work == todo = <<>> /\ current # None /\ (\E m \in Models : copy' = m) /\ UNCHANGED <<recorded, current, frames, todo, before>>
Animate == /\ todo = <<>> /\ frames = <<>>
           /\ \E q \in UNION { [1..k -> 1..NumResults] : k \in 1..2 } : todo' = q
           /\ before' = current /\ UNCHANGED <<recorded, current, copy, frames>>
Frame == /\ todo # <<>> /\ Select(Head(todo)) /\ todo' = Tail(todo)
         /\ frames' = Append(frames, recorded[Head(todo)]) /\ UNCHANGED <<recorded, before>>
Restore == /\ todo = <<>> /\ frames # <<>> /\ current # before /\ Select(before) /\ UNCHANGED <<recorded, frames, todo, before>>
Next == Choose \/ Work \/ Animate \/ Frame \/ Restore
Spec == Init /\ [][Next]_vars
(* the record never follows the work on a selected copy *)
Recorded == [][recorded' = recorded]_recorded
TypeOK == current \in 0..NumResults /\ (current = None <=> copy = 0)
Shown == todo # <<>> /\ frames # <<>> => copy = frames[Len(frames)]
=============================================================================
