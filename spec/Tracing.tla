------------------------------- MODULE Tracing -------------------------------
(* The tracer of extraction steps.  t: [call, rec, cnt, flt, store, file,       *)
(* stored, files]: depth of tracer-aware calls, depth of recursion, steps since *)
(* the outermost call began, filters, whether steps are stored / written,       *)
(* stored steps in order, written ones by number.  A step is [n, rec, c]:       *)
(* number, recursion depth, content.  A filter is [k, v].                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
Holds(t, f) == CASE f.k = "false" -> FALSE
                 [] f.k = "true" -> TRUE
                 [] f.k = "rec<=" -> t.rec <= f.v
                 [] f.k = "rec=" -> t.rec = f.v
                 [] f.k = "cnt%" -> t.cnt % f.v = 0
                 [] f.k = "cnt<" -> t.cnt < f.v
                 [] f.k = "call=" -> t.call = f.v
Passes(t) == \A i \in 1..Len(t.flt) : Holds(t, t.flt[i])
Fresh(flt, store, file) == [call |-> 0, rec |-> 0, cnt |-> 0, flt |-> flt, store |-> store, file |-> file, stored |-> <<>>, files |-> <<>>]
Reset(t) == [t EXCEPT !.call = 0, !.rec = 0, !.cnt = 0, !.stored = <<>>]
WithFile(fs, st) == Append(SelectSeq(fs, LAMBDA x : x.n # st.n), st)
Emit(t, c) == IF ~Passes(t) THEN t
              ELSE LET st == [n |-> t.cnt, rec |-> t.rec, c |-> c]
                   IN [t EXCEPT !.cnt = @ + 1, !.stored = IF t.store THEN Append(@, st) ELSE @,
                                !.files = IF t.file THEN WithFile(@, st) ELSE @]
PushC(t) == LET u == IF t.call = 0 THEN Reset(t) ELSE t IN [u EXCEPT !.call = @ + 1]
Apply(t, a) ==
  CASE a.op = "pushc" -> PushC(t)
    [] a.op = "popc" -> [t EXCEPT !.call = @ - 1]
    [] a.op = "pushr" -> [t EXCEPT !.rec = @ + 1]
    [] a.op = "popr" -> [t EXCEPT !.rec = @ - 1]
    [] a.op = "reset" -> Reset(t)
    [] a.op = "emit" -> Emit(t, a.c)
    [] a.op = "filter" -> [t EXCEPT !.flt = a.flt]
    [] a.op = "store" -> [t EXCEPT !.store = a.v]
    [] OTHER -> t
Returned(t, a) == LET u == Apply(t, a) IN CASE a.op \in {"pushc", "popc"} -> u.call [] a.op \in {"pushr", "popr"} -> u.rec [] OTHER -> 0

(* ------------------------- small closed world ----------------------------- *)
CONSTANTS Depth, MaxEmit
VARIABLES t, act, n
tvars == <<t, act, n>>
Flts == { << [k |-> "true", v |-> 0] >>, << [k |-> "false", v |-> 0] >>, << [k |-> "rec<=", v |-> 1] >>, << [k |-> "cnt<", v |-> 1], [k |-> "call=", v |-> 1] >> }
Acts(x) == { [op |-> "pushc"], [op |-> "pushr"], [op |-> "reset"] }
           \cup (IF x.call > 0 THEN { [op |-> "popc"] } ELSE {}) \cup (IF x.rec > 0 THEN { [op |-> "popr"] } ELSE {})
           \cup (IF x.cnt < MaxEmit THEN { [op |-> "emit", c |-> 0] } ELSE {})
           \cup { [op |-> "filter", flt |-> f] : f \in Flts } \cup { [op |-> "store", v |-> ~x.store] }
Init == t \in { Fresh(f, s, TRUE) : f \in Flts, s \in BOOLEAN } /\ act = [op |-> "init"] /\ n = 0
Next == n < Depth /\ \E a \in Acts(t) :
          /\ t' = Apply(t, a) /\ act' = a /\ n' = n + 1
Spec == Init /\ [][Next]_tvars
(* stored steps are numbered upwards, and each was let through with its number *)
Numbered == \A i \in 1..Len(t.stored) - 1 : t.stored[i].n < t.stored[i + 1].n
Below == \A i \in 1..Len(t.stored) : t.stored[i].n < t.cnt
OneFileEach == \A i, j \in 1..Len(t.files) : t.files[i].n = t.files[j].n => i = j
LastFile == Len(t.stored) > 0 /\ t.store /\ act.op = "emit" => \E i \in 1..Len(t.files) : t.files[i].n = t.stored[Len(t.stored)].n
Balanced == [][act'.op = "popr" /\ act.op = "pushr" => t'.rec = t.rec - 1 /\ t'.stored = t.stored]_tvars
Silent == [][~Passes(t) /\ act'.op = "emit" => t' = t]_tvars
NoLoss == [][act'.op \notin {"pushc", "reset"} => Len(t'.stored) >= Len(t.stored) /\ t'.cnt >= t.cnt]_tvars
Dump == PrintT("@@EDGE " \o ToJson([s |-> [t |-> t, n |-> n], a |-> act', p |-> [t |-> t', r |-> Returned(t, act')]]))
==============================================================================
