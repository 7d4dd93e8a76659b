------------------------------- MODULE Whole -------------------------------
(* Nothing is half done.  An operation is a request; either it can be done, and  *)
(* everything it sets comes from it while nothing else changes, or it is         *)
(* refused and everything is as it was - in objects and in files.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
SetOf(q) == { q[i] : i \in 1..Len(q) }
(* -------------------------------- what can be done ------------------------ *)
(* data of nx positions, ny values and uncertainties (-1: none given)           *)
DataCan(e) == e.nx = e.ny /\ e.ndx \in {-1, e.nx} /\ e.ndy \in {-1, e.nx}
(* settings by name; super: oversampling in thousandths (-1: not given)         *)
Known == {"effective_dy", "rng", "pf", "initial_peaks", "baseline", "cres", "error_method"}
KnownPdf == Known \cup {"dg", "qmax", "supersample", "nyquist", "scale"}
SetCan(kind, names, super, auto, found) ==
  /\ SetOf(names) \subseteq (IF kind = "pdf" THEN KnownPdf ELSE Known)
  /\ ~({"dg", "effective_dy"} \subseteq SetOf(names))
  /\ super = -1 \/ super >= 1000
  /\ auto => found
(* parts: owner with n parameters *)
PartCan(n, np, nf) == np = n /\ nf \in {-1, n}
NFree(p) == Cardinality({ i \in 1..Len(p.free) : p.free[i] })
UpdateCan(p, q) == Len(q) >= NFree(p)
Updated(p, q) == [p EXCEPT !.pars = [i \in 1..Len(p.pars) |-> IF p.free[i] THEN q[Cardinality({ j \in 1..i : p.free[j] })] ELSE p.pars[i]]]
OwnerCan(p, o, n) == (p.static => o = p.owner) /\ n = Len(p.pars)
(* clustering: res in thousandths *)
ClusterCan(nx, ny, res) == nx = ny /\ res >= 0
(* a function is declared by parameter names (which are text?) with their places, its formats, and its default formats *)
PlacesCan(places) == LET n == Len(places) IN \A k \in 0..n - 1 : \E i \in 1..n : places[i] = k
DeclareCan(e) ==
  /\ \A i \in 1..Len(e.text) : e.text[i]
  /\ PlacesCan(e.places)
  /\ e.input # "absent" /\ e.output # "absent"
  /\ {e.input, e.output} \cup SetOf(e.more) \subseteq SetOf(e.formats)
  /\ e.peak => e.position
(* -------------------------------- small model ----------------------------- *)
(* An object with settings; requests name settings, some of which do not exist; *)
(* files hold settings, may be cut short, and are written and read one entry    *)
(* after the other.  Work goes step by step; what an observer sees between       *)
(* requests is all or nothing.                                                    *)
CONSTANTS Names, Vals, Files, Nonsense
VARIABLES obj, file, req, todo, pre, prefile, told, was
vars == <<obj, file, req, todo, pre, prefile, told, was>>
Cut == [n \in Names |-> 0]
Idle == req = <<"idle">>
Init == obj = [n \in Names |-> 1] /\ file = [f \in Files |-> <<>>] /\ req = <<"idle">> /\ todo = {} /\ pre = obj /\ prefile = file /\ told = "nothing" /\ was = <<"idle">>
Begin(r) == Idle /\ req' = r /\ todo' = Names /\ pre' = obj /\ prefile' = file /\ told' = "busy" /\ was' = r /\ UNCHANGED <<obj, file>>
(* a request to set: names (some of them nonsense) to a value *)
AskSet == \E ns \in (SUBSET (Names \cup Nonsense)) \ {{}}, v \in Vals : Begin(<<"set", ns, v>>)
AskRead == \E f \in Files : Begin(<<"read", f>>)
AskSave == \E f \in Files : Begin(<<"save", f>>)
Rot == \E f \in Files, k \in 0..Cardinality(Names) : Idle /\ Len(file[f]) > k /\ file' = [file EXCEPT ![f] = SubSeq(@, 1, k)] /\ pre' = obj /\ prefile' = file' /\ told' = "nothing" /\ was' = <<"idle">> /\ UNCHANGED <<obj, req, todo>>
Tell(t) == told' = t /\ req' = <<"idle">> /\ todo' = {}
Set == /\ req[1] = "set"
       /\ IF ~(req[2] \subseteq Names) THEN Tell("refused") /\ UNCHANGED <<obj, file, pre, prefile, was>>    \* before anything is set
          ELSE IF todo \cap req[2] = {} THEN Tell("done") /\ UNCHANGED <<obj, file, pre, prefile, was>>
          ELSE \E n \in todo \cap req[2] : obj' = [obj EXCEPT ![n] = req[3]] /\ todo' = todo \ {n} /\ UNCHANGED <<file, req, pre, prefile, told, was>>
Entry(q, n) == { q[i][2] : i \in { j \in 1..Len(q) : q[j][1] = n } }
Read == /\ req[1] = "read"
        /\ IF todo = {} THEN Tell("done") /\ UNCHANGED <<obj, file, pre, prefile, was>>
           ELSE \E n \in todo :
                  IF Entry(file[req[2]], n) = {} THEN obj' = pre /\ Tell("refused") /\ UNCHANGED <<file, pre, prefile, was>>   \* what was read so far is taken back
                  ELSE obj' = [obj EXCEPT ![n] = CHOOSE v \in Entry(file[req[2]], n) : TRUE] /\ todo' = todo \ {n} /\ UNCHANGED <<file, req, pre, prefile, told, was>>
Text(o) == LET q == SetToSeq(Names) IN [i \in 1..Len(q) |-> <<q[i], o[q[i]]>>]
(* the text is complete before the file is touched; an object may not be written *)
Save == /\ req[1] = "save"
        /\ IF \E n \in Names : obj[n] = 0 THEN Tell("refused") /\ UNCHANGED <<obj, file, pre, prefile, was>>
           ELSE file' = [file EXCEPT ![req[2]] = Text(obj)] /\ Tell("done") /\ UNCHANGED <<obj, pre, prefile, was>>
Next == AskSet \/ AskRead \/ AskSave \/ Rot \/ Set \/ Read \/ Save
Spec == Init /\ [][Next]_vars
Can(r) == CASE r[1] = "set" -> r[2] \subseteq Names
            [] r[1] = "read" -> \A n \in Names : Entry(prefile[r[2]], n) # {}
            [] r[1] = "save" -> \A n \in Names : pre[n] # 0
Want(r) == CASE r[1] = "set" -> <<[n \in Names |-> IF n \in r[2] THEN r[3] ELSE pre[n]], prefile>>
             [] r[1] = "read" -> <<[n \in Names |-> CHOOSE v \in Entry(prefile[r[2]], n) : TRUE], prefile>>
             [] r[1] = "save" -> <<pre, [prefile EXCEPT ![r[2]] = Text(pre)]>>
AllOrNothing == Idle /\ was # <<"idle">> => IF Can(was) THEN told = "done" /\ <<obj, file>> = Want(was) ELSE told = "refused" /\ obj = pre /\ file = prefile
(* what is saved can be read, and reads as saved *)
SavedReads == Idle /\ was[1] = "save" /\ told = "done" => \A n \in Names : Entry(file[was[2]], n) = {obj[n]}
============================================================================
