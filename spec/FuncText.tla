------------------------------ MODULE FuncText ------------------------------
(* Functions that may be built from another one, listed so that they can be     *)
(* written to text and rebuilt.  base[f] is the function f is built from, or 0. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
SetOf(q) == { q[i] : i \in 1..Len(q) }
RECURSIVE Chain(_, _)
Chain(base, f) == IF f = 0 THEN {} ELSE {f} \cup Chain(base, base[f])
Closure(base, fs) == UNION { Chain(base, f) : f \in SetOf(fs) }
IndexIn(q, f) == IF f \in SetOf(q) THEN CHOOSE i \in 1..Len(q) : q[i] = f /\ \A j \in 1..i - 1 : q[j] # f ELSE 0
Once(q) == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
(* a list that can be written and rebuilt in order *)
Ready(base, q) == Once(q) /\ \A i \in 1..Len(q) : base[q[i]] = 0 \/ IndexIn(q, base[q[i]]) \in 1..i - 1
Safe(base, fs, q) == Ready(base, q) /\ SetOf(q) = Closure(base, fs)
(* one way to make it: each function after those it is built from *)
RECURSIVE AddTo(_, _, _), ListOf(_, _, _)
AddTo(base, q, f) == IF f = 0 \/ f \in SetOf(q) THEN q ELSE Append(AddTo(base, q, base[f]), f)
ListOf(base, fs, i) == IF i = 0 THEN <<>> ELSE AddTo(base, ListOf(base, fs, i - 1), fs[i])
(* text of one function: what it is, and its base's place in the list (0: none) *)
Writable(base, q) == \A i \in 1..Len(q) : base[q[i]] = 0 \/ base[q[i]] \in SetOf(q)
Text(what, base, q) == [i \in 1..Len(q) |-> [what |-> what[q[i]], base |-> IndexIn(q, base[q[i]])]]
(* rebuilding in order; references may only go to what has been rebuilt *)
Readable(txt) == \A i \in 1..Len(txt) : txt[i].base \in 0..i - 1

(* ------------------------- small closed world ----------------------------- *)
CONSTANTS MaxF, MaxList
VARIABLES base, fs
fvars == <<base, fs>>
Forests == UNION { { b \in [1..n -> 0..n] : \A i \in 1..n : b[i] < i } : n \in 1..MaxF }
Init == base \in Forests /\ fs = <<>>
Next == Len(fs) < MaxList /\ \E f \in 1..Len(base) : fs' = Append(fs, f) /\ base' = base
Spec == Init /\ [][Next]_fvars
Made == ListOf(base, fs, Len(fs))
Works == Safe(base, fs, Made)
CanWrite == Writable(base, Made) /\ Readable(Text([f \in 1..Len(base) |-> f], base, Made))
(* rebuilding numbers the functions as in the list: same functions, same sharing *)
Same == LET t == Text([f \in 1..Len(base) |-> f], base, Made)
        IN \A i, j \in 1..Len(Made) : (base[Made[i]] = Made[j]) <=> (t[i].base = j)
(* listing what is listed changes nothing *)
Idempotent == ListOf(base, Made, Len(Made)) = Made
Grows == [][\A f \in SetOf(ListOf(base, fs, Len(fs))) : f \in SetOf(ListOf(base, fs', Len(fs')))]_fvars
==============================================================================
