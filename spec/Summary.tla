------------------------------ MODULE Summary ------------------------------
(* The readable summary of an extraction.  An extraction is at any time       *)
(* without a result or has one; a summary is made of what it holds at that    *)
(* time and stays what it was.                                                *)
(* Result p: f: settings by name; quality numbers; uses: functions of peaks   *)
(* in use; peaks: [v: position, width, area; fn]; bl: [on, v, fn]; what and   *)
(* base tell for each function what it is and what it is built from.          *)
(* Summary t: the same with functions listed and numbered from 0.             *)
EXTENDS FuncText
Abs(a) == IF a < 0 THEN -a ELSE a
Close(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= 2
(* t.funcs: [what, base] as listed, base an index from 0 or -1 *)
Listed(what, b, q) == [i \in 1..Len(q) |-> [what |-> what[q[i]], base |-> IndexIn(q, b[q[i]]) - 1]]
(* the list is the functions in use with those they are built from, each once, *)
(* bases first, and each reference goes to its own function                    *)
Lists(what, b, uses, listed, refs, fns) ==
  \E q \in SetToSeqs(Closure(b, uses)) :
    /\ Ready(b, q)
    /\ Listed(what, b, q) = listed
    /\ Len(refs) = Len(fns)
    /\ \A i \in 1..Len(refs) : refs[i] = IndexIn(q, fns[i]) - 1

(* ------------------------- small closed world ----------------------------- *)
CONSTANTS MaxText
VARIABLES res, texts, at
allvars == <<fvars, res, texts, at>>
(* result: a sequence of functions (of the world's forest) its peaks belong to *)
InitS == Init /\ res = <<>> /\ texts = <<>> /\ at = <<>>
W == [f \in 1..Len(base) |-> f]
Extract == fs' = Append(fs, 1) /\ base' = base /\ Len(fs) < MaxList
           /\ \E r \in UNION { [1..k -> 1..Len(base)] : k \in 1..2 } : res' = r
           /\ UNCHANGED <<texts, at>>
Clear == res' = <<>> /\ UNCHANGED <<fvars, texts, at>>
Write == /\ res # <<>> /\ Len(texts) < MaxText
         /\ LET q == ListOf(base, res, Len(res)) IN
              texts' = Append(texts, [funcs |-> Listed(W, base, q), refs |-> [i \in 1..Len(res) |-> IndexIn(q, res[i]) - 1]])
         /\ at' = Append(at, res)
         /\ UNCHANGED <<fvars, res>>
NextS == Extract \/ Clear \/ Write
SpecS == InitS /\ [][NextS]_allvars
(* what was written describes the result it was written of, whatever came later *)
Faithful == \A i \in 1..Len(texts) : Lists(W, base, at[i], texts[i].funcs, texts[i].refs, at[i])
(* a list that lacks a function, or a reference to another one, is told apart *)
Exact == \A i \in 1..Len(texts) :
  LET t == texts[i] n == Len(t.funcs) IN
  /\ ~Lists(W, base, at[i], SubSeq(t.funcs, 1, n - 1), t.refs, at[i])
  /\ \A j \in 1..Len(t.refs), k \in 0..n - 1 : k # t.refs[j] => ~Lists(W, base, at[i], t.funcs, [t.refs EXCEPT ![j] = k], at[i])
==============================================================================
