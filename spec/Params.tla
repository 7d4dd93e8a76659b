------------------------------- MODULE Params -------------------------------
(* Model parts and their parameters: free flags, packing and unpacking of   *)
(* the free parameters, copies, comparison and change of owner.             *)
(* World: sequence of models, each a sequence of parts                      *)
(*   [own, pars, free, rem, stat].  Parts of different models share nothing. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

Ok(v) == [k |-> "ok", v |-> v]
Refused == [k |-> "refused", v |-> <<>>]
Out(w, r) == [w |-> w, r |-> r]

NFree(p) == Cardinality({ i \in 1..Len(p.pars) : p.free[i] })
FreeIdx(p) == SelectSeq([i \in 1..Len(p.pars) |-> i], LAMBDA i : p.free[i])
Compress(p) == [i \in 1..NFree(p) |-> p.pars[FreeIdx(p)[i]]]
Unpack(m) == FlattenSeq([i \in 1..Len(m) |-> Compress(m[i])])
RECURSIVE Before(_, _)
Before(m, i) == IF i <= 1 THEN 0 ELSE NFree(m[i - 1]) + Before(m, i - 1)
(* rank of parameter j of p among its free parameters *)
Rank(p, j) == Cardinality({ i \in 1..j : p.free[i] })
SetPart(m, i, vals) ==
  [m[i] EXCEPT !.pars = [j \in 1..Len(m[i].pars) |->
      IF m[i].free[j] THEN vals[Before(m, i) + Rank(m[i], j)] ELSE m[i].pars[j]]]
Pack(m, vals) == [i \in 1..Len(m) |-> SetPart(m, i, vals)]
Total(m) == Before(m, Len(m) + 1)

Same(p, q) == p.own = q.own /\ p.pars = q.pars /\ p.free = q.free /\ p.rem = q.rem
NParsOf(m, fixed) == IF fixed THEN Len(FlattenSeq([i \in 1..Len(m) |-> m[i].pars])) ELSE Total(m)
Upd(w, m, i, p) == [w EXCEPT ![m][i] = p]

(* the set of allowed outcomes of operation a in world w *)
Apply(w, a) ==
  CASE a.op = "unpack" -> { Out(w, Ok(Unpack(w[a.m]))) }
    [] a.op = "pack" ->
         IF Len(a.vals) >= Total(w[a.m])
         THEN { Out([w EXCEPT ![a.m] = Pack(@, a.vals)], Ok(<<>>)) }
         ELSE { Out(w, Refused) }
    [] a.op = "packnan" -> { Out(w, Refused) }
    [] a.op = "copymodel" -> { Out(Append(w, w[a.m]), Ok(<<>>)) }
    [] a.op = "cut" -> { Out(Append(w, SubSeq(w[a.m], a.i, a.j)), Ok(<<>>)) }
    [] a.op = "copypart" -> { Out(Append(w, <<w[a.m][a.i]>>), Ok(<<>>)) }
    [] a.op = "setpar" -> { Out(Upd(w, a.m, a.i, [w[a.m][a.i] EXCEPT !.pars[a.j] = a.v]), Ok(<<>>)) }
    [] a.op = "setfree" -> { Out(Upd(w, a.m, a.i, [w[a.m][a.i] EXCEPT !.free[a.j] = a.b]), Ok(<<>>)) }
    [] a.op = "setrem" -> { Out(Upd(w, a.m, a.i, [w[a.m][a.i] EXCEPT !.rem = a.b]), Ok(<<>>)) }
    [] a.op = "setstat" -> { Out(Upd(w, a.m, a.i, [w[a.m][a.i] EXCEPT !.stat = a.b]), Ok(<<>>)) }
    [] a.op = "get" -> { Out(w, Ok(w[a.m][a.i].pars[a.j])) }
    [] a.op = "getfree" -> { Out(w, Ok(w[a.m][a.i].free[a.j])) }
    [] a.op = "nparspart" -> { Out(w, Ok(IF a.fixed THEN Len(w[a.m][a.i].pars) ELSE NFree(w[a.m][a.i]))) }
    [] a.op = "npars" -> { Out(w, Ok(NParsOf(w[a.m], a.fixed))) }
    [] a.op = "eqpart" -> { Out(w, Ok(Same(w[a.m][a.i], w[a.m2][a.i2]))) }
    [] a.op = "eqmodel" -> { Out(w, Ok(/\ Len(w[a.m]) = Len(w[a.m2])
                                       /\ \A i \in 1..Len(w[a.m]) : Same(w[a.m][i], w[a.m2][i]))) }
    [] a.op = "changeowner" ->
         LET p == w[a.m][a.i] IN
         IF (p.stat /\ p.own # a.own) \/ a.n # Len(p.pars) THEN { Out(w, Refused) }
         ELSE { Out(Upd(w, a.m, a.i, [p EXCEPT !.own = a.own]), Ok(<<>>)) }
    [] a.op = "new" -> (* a part made from parameters and flags of the wrong number is refused *)
         IF Len(a.pars) # a.n \/ Len(a.free) # a.n THEN { Out(w, Refused) }
         ELSE { Out(Append(w, <<[own |-> a.own, pars |-> a.pars, free |-> a.free, rem |-> a.rem, stat |-> a.stat]>>), Ok(<<>>)) }

(* ------------------------------ small model ------------------------------ *)
CONSTANTS Vals, MaxModels, Depth
VARIABLES w, n, act, res
vars == <<w, n, act, res>>

Part1 == { [own |-> o, pars |-> <<v>>, free |-> <<f>>, rem |-> TRUE, stat |-> FALSE] : o \in {1}, v \in Vals, f \in BOOLEAN }
Part2 == { [own |-> 2, pars |-> <<u, v>>, free |-> <<f, g>>, rem |-> r, stat |-> s] :
             u \in Vals, v \in Vals, f \in BOOLEAN, g \in BOOLEAN, r \in {TRUE}, s \in BOOLEAN }
Init == /\ w \in { <<<<p, q>>>> : p \in Part2, q \in Part1 }
        /\ n = 0 /\ act = [op |-> "init"] /\ res = Ok(<<>>)
Ops(x) ==
  UNION { { [op |-> "unpack", m |-> m], [op |-> "copymodel", m |-> m], [op |-> "packnan", m |-> m],
            [op |-> "npars", m |-> m, fixed |-> TRUE], [op |-> "npars", m |-> m, fixed |-> FALSE] }
          \cup { [op |-> "pack", m |-> m, vals |-> v] : v \in UNION { [1..k -> {7}] : k \in 0..4 } \cup { <<7, 8, 9>> } }
          \cup UNION { { [op |-> "copypart", m |-> m, i |-> i] }
                 \cup { [op |-> "setrem", m |-> m, i |-> i, b |-> FALSE], [op |-> "setstat", m |-> m, i |-> i, b |-> ~x[m][i].stat] }
                 \cup { [op |-> "nparspart", m |-> m, i |-> i, fixed |-> f] : f \in BOOLEAN }
                 \cup { [op |-> "changeowner", m |-> m, i |-> i, own |-> o, n |-> IF o = 1 THEN 1 ELSE 2] : o \in {1, 2, 3} }
                 \cup UNION { { [op |-> "setpar", m |-> m, i |-> i, j |-> j, v |-> 5],
                                [op |-> "setfree", m |-> m, i |-> i, j |-> j, b |-> ~x[m][i].free[j]],
                                [op |-> "get", m |-> m, i |-> i, j |-> j],
                                [op |-> "getfree", m |-> m, i |-> i, j |-> j] } : j \in 1..Len(x[m][i].pars) }
                 \cup { [op |-> "eqpart", m |-> m, i |-> i, m2 |-> m2, i2 |-> 1] : m2 \in { q \in 1..Len(x) : x[q] # <<>> } }
                 : i \in 1..Len(x[m]) }
          \cup { [op |-> "cut", m |-> m, i |-> 1, j |-> IF x[m] = <<>> THEN 0 ELSE 1], [op |-> "cut", m |-> m, i |-> Len(x[m]) + 1, j |-> Len(x[m])] }
          \cup { [op |-> "eqmodel", m |-> m, m2 |-> m2] : m2 \in 1..Len(x) }
        : m \in 1..Len(x) }
Next == /\ n < Depth
        /\ \E a \in Ops(w) : \E o \in Apply(w, a) :
             /\ Len(o.w) <= MaxModels
             /\ w' = o.w /\ res' = o.r /\ act' = a /\ n' = n + 1
Spec == Init /\ [][Next]_vars

(* what is packed is what is unpacked; packing back changes nothing *)
RoundTrip == \A m \in 1..Len(w) : /\ Len(Unpack(w[m])) = Total(w[m])
                                  /\ Pack(w[m], Unpack(w[m])) = w[m]
PackUnpack == \A m \in 1..Len(w) : LET v == [i \in 1..Total(w[m]) |-> 100 + i]
                                   IN Unpack(Pack(w[m], v)) = v
(* fixed parameters never change by packing, other models never change by any operation on one *)
FixedStay == [][act'.op \in {"pack", "packnan"} => \A m \in 1..Len(w) : \A i \in 1..Len(w[m]) : \A j \in 1..Len(w[m][i].pars) :
                  ~w[m][i].free[j] => w'[m][i].pars[j] = w[m][i].pars[j]]_vars
OthersStay == [][\A m \in 1..Len(w) : m # act'.m => w'[m] = w[m]]_vars
CopyEqual == [][act'.op = "copymodel" => w'[Len(w')] = w[act'.m]]_vars

Dump == PrintT("@@EDGE " \o ToJson([s |-> w, a |-> act', p |-> [w |-> w', r |-> res']]))
=============================================================================
