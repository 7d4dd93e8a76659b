------------------------------- MODULE Worlds -------------------------------
(* Several extractions side by side.  Each has its settings (what it was given, *)
(* with data, functions, peaks) and perhaps a result.  What comes out of an      *)
(* operation is a law of the settings alone: not of what was done before, of     *)
(* what others do, of messages and tracing switched on, or of an operation that  *)
(* was broken off half way.                                                      *)
(*  w == [conf |-> objects -> settings, res |-> objects -> result, 0 for none,   *)
(*        tree |-> what is shared and surrounds them all]                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
None == 0
Only(w, v, o) == /\ DOMAIN v.conf = DOMAIN w.conf
                 /\ v.tree = w.tree
                 /\ \A p \in DOMAIN w.conf \ {o} : v.conf[p] = w.conf[p] /\ v.res[p] = w.res[p]
(* what has been seen of the law: pairs <<<<operation, settings>>, outcome>> *)
Seen(law, k) == { q[2] : q \in { p \in law : p[1] = k } }
Agrees(law, k, out) == Seen(law, k) \subseteq {out}
Functional(law) == \A p, q \in law : p[1] = q[1] => p[2] = q[2]

Given(w, v, o, c) == Only(w, v, o) /\ v.conf[o] = c /\ v.res[o] \in {w.res[o], None}
Ran(w, v, o, out) == Only(w, v, o) /\ v.conf[o] = w.conf[o] /\ v.res[o] = out /\ out # None
(* settings stay; the result is that from before, or none, or, where the failure *)
(* could be made up for, some result                                             *)
Broken(w, v, o, raised) == Only(w, v, o) /\ v.conf[o] = w.conf[o] /\ (raised => v.res[o] \in {None, w.res[o]})
(* uncertainties tried one after the other; the last one stays                   *)
Series(w, v, o, cs, outs) == Only(w, v, o) /\ Len(cs) = Len(outs) /\ v.conf[o] = cs[Len(cs)] /\ v.res[o] = outs[Len(outs)]
(* looked at, worked on in a copy, or something else altogether happened         *)
Aside(w, v) == v.conf = w.conf /\ v.res = w.res /\ v.tree = w.tree
Taken(w, v, o, p) == Only(w, v, o) /\ v.conf[o] = w.conf[p]

(* ------------------------------- small model ------------------------------- *)
CONSTANTS Objs, Confs, Outs, Depth
VARIABLES w, law, hidden, n
vars == <<w, law, hidden, n>>
Init == /\ w = [conf |-> [o \in Objs |-> CHOOSE c \in Confs : TRUE], res |-> [o \in Objs |-> None], tree |-> 0]
        /\ law = {} /\ n = 0 /\ hidden \in [Confs -> Outs]
Set(o) == \E c \in Confs : w' = [w EXCEPT !.conf[o] = c] /\ law' = law
Run(o) == LET c == w.conf[o] IN w' = [w EXCEPT !.res[o] = hidden[c]] /\ law' = law \cup {<<c, hidden[c]>>}
Break(o) == \E x \in {None, w.res[o]} : w' = [w EXCEPT !.res[o] = x] /\ law' = law
Mend(o) == \E x \in Outs : w' = [w EXCEPT !.res[o] = x] /\ law' = law
Try(o) == \E c, d \in Confs : /\ w' = [w EXCEPT !.conf[o] = d, !.res[o] = hidden[d]]
                              /\ law' = law \cup {<<c, hidden[c]>>, <<d, hidden[d]>>}
Load(o) == \E p \in Objs : \E x \in {None, w.res[p]} : w' = [w EXCEPT !.conf[o] = w.conf[p], !.res[o] = x] /\ law' = law
Next == /\ n < Depth /\ n' = n + 1 /\ hidden' = hidden
        /\ \E o \in Objs : Set(o) \/ Run(o) \/ Break(o) \/ Mend(o) \/ Try(o) \/ Load(o)
Spec == Init /\ [][Next]_vars
Lawful == Functional(law)
Apart == [][\E o \in Objs : Only(w, w', o)]_vars
(* every step is one the relations above allow *)
Allowed == [][\E o \in Objs : \/ \E c \in Confs : Given(w, w', o, c)
                              \/ \E x \in Outs : Ran(w, w', o, x) /\ (Ran(w, w', o, hidden[w.conf[o]]) => Agrees(law, w.conf[o], hidden[w.conf[o]]))
                              \/ Broken(w, w', o, TRUE) \/ Broken(w, w', o, FALSE)
                              \/ \E c, d \in Confs : Series(w, w', o, <<c, d>>, <<hidden[c], hidden[d]>>)
                              \/ \E p \in Objs : Taken(w, w', o, p)]_vars
=============================================================================
