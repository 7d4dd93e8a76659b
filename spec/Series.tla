------------------------------- MODULE Series --------------------------------
(* A stability series: results recorded for uncertainties, one of them in       *)
(* effect. A result is [e: uncertainty, m: model, b: baseline, dr: spacing];    *)
(* what is in effect is a copy of its own that later work changes.              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
Nothing == [on |-> FALSE, e |-> 0, m |-> 0, b |-> 0, dr |-> 0]
InEffect(r) == [on |-> TRUE, e |-> r.e, m |-> r.m, b |-> r.b, dr |-> r.dr]
Record(errs, got) == [i \in 1..Len(errs) |-> [e |-> errs[i], m |-> got[i].m, b |-> got[i].b, dr |-> got[i].dr]]
Select(s, i) == IF i = 0 THEN Nothing ELSE InEffect(s.res[i])
Loaded(f) == [res |-> f, act |-> IF f = <<>> THEN Nothing ELSE InEffect(f[1])]

(* --------------------------- small closed world --------------------------- *)
CONSTANTS Errs, Models, MaxRun, NFile, Depth
VARIABLES ser, file, n, done
svars == <<ser, file, n, done>>
Init == ser = [res |-> <<>>, act |-> Nothing] /\ file = [i \in 1..NFile |-> <<>>] /\ n = 0 /\ done = <<>>
Got == [m : Models, b : {1}, dr : {1}]
Run == \E k \in 0..MaxRun : \E es \in [1..k -> Errs], g \in [1..k -> Got] :
         LET r == Record(es, g) IN ser' = [res |-> r, act |-> IF k = 0 THEN ser.act ELSE InEffect(r[k])] /\ done' = r /\ UNCHANGED file
Choose == \E i \in 0..Len(ser.res) : ser' = [ser EXCEPT !.act = Select(ser, i)] /\ UNCHANGED <<file, done>>
Work == ser.act.on /\ \E m \in Models : ser' = [ser EXCEPT !.act.m = m] /\ UNCHANGED <<file, done>>
Save == \E k \in 1..NFile : file' = [file EXCEPT ![k] = ser.res] /\ UNCHANGED <<ser, done>>
Load == \E k \in 1..NFile : ser' = Loaded(file[k]) /\ done' = file[k] /\ UNCHANGED file
Next == n < Depth /\ n' = n + 1 /\ (Run \/ Choose \/ Work \/ Save \/ Load)
Spec == Init /\ [][Next]_svars
(* nothing but a new run or a load changes the record *)
Faithful == ser.res = done
Selected == [][(ser'.res = ser.res /\ ser'.act # ser.act /\ ser'.act.on /\ ser'.act.b # 0) => (ser.act.on \/ \E i \in 1..Len(ser.res) : ser'.act = InEffect(ser.res[i]))]_svars
==============================================================================
