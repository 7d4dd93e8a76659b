------------------------------- MODULE Asking ------------------------------
(* Peaks asked for at a point, or handed in, between extractions.              *)
(* What is asked for is found in what the data has beyond the baseline and the  *)
(* peaks there already: those of the extraction if there is one, the initial    *)
(* peaks otherwise.  There it is added, if wanted; nothing else changes.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
Abs(v) == IF v < 0 THEN -v ELSE v
SetOf(s) == { s[i] : i \in 1..Len(s) }
(* peaks: [id, pos]; an ordering without loss *)
Ordered(s) == \A i \in 1..(Len(s) - 1) : s[i].pos <= s[i + 1].pos
Count(s, p) == Cardinality({ i \in 1..Len(s) : s[i] = p })
SameBag(s, t) == Len(s) = Len(t) /\ \A p \in SetOf(s) \cup SetOf(t) : Count(s, p) = Count(t, p)
Added(before, new, after) == SameBag(before \o new, after) /\ Ordered(after)
(* a hidden peak h owns the points near its position *)
At(h, x) == 5 * Abs(h.pos - x) <= 2 * h.w
(* p is that hidden peak: within a hundredth *)
Close(a, b, tol) == Abs(a - b) <= tol
Is(p, h) == Close(p.pos, h.pos, 2 + h.w \div 50) /\ Close(p.w, h.w, 2 + h.w \div 25) /\ Close(p.h, h.h, 2 + h.h \div 25)

(* ------------------------------- small model ----------------------------- *)
(* L places; what the data has at each; where peaks are known (by how much)    *)
CONSTANTS L, Tops
VARIABLES data, known, start, last
vars == <<data, known, start, last>>
Rest(i) == data[i] - (IF \E p \in known : p.pos = i THEN LET p == CHOOSE q \in known : q.pos = i IN p.h ELSE 0)
None == [pos |-> 0, h |-> 0]
Init == /\ data \in [1..L -> { t - 1 : t \in Tops }]
        /\ \E s \in SUBSET (1..L) : known = { [pos |-> i, h |-> data[i]] : i \in { j \in s : data[j] > 0 } }
        /\ start = known /\ last = [at |-> 0, got |-> None, add |-> FALSE]
Ask == \E i \in 1..L : \E add \in BOOLEAN :
   LET p == IF Rest(i) > 0 THEN [pos |-> i, h |-> Rest(i)] ELSE None IN
   /\ last' = [at |-> i, got |-> p, add |-> add]
   /\ known' = IF add /\ p # None THEN known \cup {p} ELSE known
   /\ UNCHANGED <<data, start>>
Next == Ask
Spec == Init /\ [][Next]_vars
(* no peak is ever lost; two are never at one place; nothing more is explained than there is *)
Kept == start \subseteq known
Single == \A p, q \in known : p.pos = q.pos => p = q
Explained == \A i \in 1..L : data[i] >= 0 => Rest(i) >= 0
(* asked again, there is nothing left; asked without adding, the same again *)
Again == last.got # None => (IF last.add THEN Rest(last.at) = 0 ELSE Rest(last.at) = last.got.h)
(* whatever the order of the questions, the same peaks are known in the end *)
End == { i \in 1..L : data[i] > 0 } = { p.pos : p \in known } => known = { [pos |-> i, h |-> data[i]] : i \in { j \in 1..L : data[j] > 0 } }
=============================================================================
