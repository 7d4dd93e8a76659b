-------------------------------- MODULE Store --------------------------------
(* Objects written to text and read back.  An object is its field values and    *)
(* the functions it refers to; only which references go to the same function    *)
(* and what the functions are matters, not their identity.                      *)
(* Snapshot p: [f: values, refs: functions referred to in a fixed order,        *)
(* what, base: for each function what it is and the one it is built from].      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
RECURSIVE ChainOf(_, _)
ChainOf(p, i) == IF i = 0 THEN <<>> ELSE <<i>> \o ChainOf(p, p.base[i])
Chains(p) == [i \in 1..Len(p.refs) |-> ChainOf(p, p.refs[i])]
SameRefs(p, q) ==
  /\ Len(p.refs) = Len(q.refs)
  /\ LET a == Chains(p) b == Chains(q) IN
     \A i \in 1..Len(a) :
       /\ Len(a[i]) = Len(b[i])
       /\ \A k \in 1..Len(a[i]) :
            /\ p.what[a[i][k]] = q.what[b[i][k]]
            /\ \A j \in 1..i : \A l \in 1..Len(a[j]) : (l \in 1..Len(b[j])) /\ ((a[i][k] = a[j][l]) <=> (b[i][k] = b[j][l]))
SameFields(p, q) == p.f = q.f
Same(p, q) == SameFields(p, q) /\ SameRefs(p, q)

(* ------------------------- small closed world ----------------------------- *)
CONSTANTS Vals, NObj, NFile, Depth
VARIABLES obj, file, n
svars == <<obj, file, n>>
Blank == [f |-> [a |-> 0], refs |-> <<>>, what |-> <<1, 2, 2>>, base |-> <<0, 0, 1>>]
Bad == [f |-> [a |-> -1], refs |-> <<>>, what |-> <<>>, base |-> <<>>]
Init == obj = [i \in 1..NObj |-> Blank] /\ file = [i \in 1..NFile |-> Bad] /\ n = 0
Change == \E i \in 1..NObj, v \in Vals : obj' = [obj EXCEPT ![i].f.a = v] /\ file' = file
Refer == \E i \in 1..NObj, g \in 1..3 : Len(obj[i].refs) < 2 /\ obj' = [obj EXCEPT ![i].refs = Append(@, g)] /\ file' = file
(* text numbers the functions in any order: here backwards *)
Turn(p) == [f |-> p.f, refs |-> [i \in 1..Len(p.refs) |-> 4 - p.refs[i]], what |-> <<p.what[3], p.what[2], p.what[1]>>, base |-> <<3, 0, 0>>]
Save == \E i \in 1..NObj, k \in 1..NFile : obj[i].base = Blank.base /\ file' = [file EXCEPT ![k] = Turn(obj[i])] /\ obj' = obj
Load == \E i \in 1..NObj, k \in 1..NFile : file[k] # Bad /\ obj' = [obj EXCEPT ![i] = file[k]] /\ file' = file
Damage == \E k \in 1..NFile : file' = [file EXCEPT ![k] = Bad] /\ obj' = obj
Next == n < Depth /\ n' = n + 1 /\ (Change \/ Refer \/ Save \/ Load \/ Damage)
Spec == Init /\ [][Next]_svars
Refl == \A i \in 1..NObj : Same(obj[i], obj[i])
Sym == \A i, j \in 1..NObj : Same(obj[i], obj[j]) <=> Same(obj[j], obj[i])
(* what is loaded from what was just saved is the same *)
SavedSame == [][\A k \in 1..NFile : file'[k] # file[k] /\ file'[k] # Bad => \E i \in 1..NObj : Same(obj[i], file'[k])]_svars
(* two references to one function are not the same as to two alike *)
Sharing == ~Same([Blank EXCEPT !.refs = <<2, 2>>], [Blank EXCEPT !.refs = <<2, 3>>])
           /\ ~Same([Blank EXCEPT !.refs = <<2, 2>>, !.base = <<0, 0, 0>>], [Blank EXCEPT !.refs = <<2, 3>>, !.base = <<0, 0, 0>>])
==============================================================================
