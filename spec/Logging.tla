------------------------------- MODULE Logging -------------------------------
(* Log levels: lg is [con, files, live, wait]: the console's level, for each    *)
(* file in the order added [lev, fmt, out: messages], live plotting settings.   *)
(* The last file added is the one whose level can be changed.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
Names == [debug |-> 10, info |-> 20, warning |-> 30, error |-> 40, critical |-> 50]
Valid(v) == IF v.t = "name" THEN v.s \in DOMAIN Names ELSE v.t = "int" /\ v.i >= 0
Level(v) == IF v.t = "name" THEN Names[v.s] ELSE v.i
Fresh == [con |-> 20, files |-> <<>>, live |-> FALSE, wait |-> FALSE, out |-> <<>>]
Apply(lg, a) ==
  CASE a.op = "setlevel" -> IF Valid(a.v) THEN [lg EXCEPT !.con = Level(a.v)] ELSE lg
    [] a.op = "addfile" -> IF Valid(a.v) THEN [lg EXCEPT !.files = Append(@, [lev |-> Level(a.v), fmt |-> a.fmt, out |-> <<>>])] ELSE lg
    [] a.op = "filelevel" -> IF Valid(a.v) /\ lg.files # <<>> THEN [lg EXCEPT !.files[Len(lg.files)].lev = Level(a.v)] ELSE lg
    [] a.op = "msg" -> [lg EXCEPT !.out = IF a.lev >= lg.con THEN Append(@, [fmt |-> "plain", lev |-> a.lev, id |-> a.id]) ELSE @,
                                  !.files = [i \in 1..Len(lg.files) |-> IF a.lev >= lg.files[i].lev
                                     THEN [lg.files[i] EXCEPT !.out = Append(@, [fmt |-> lg.files[i].fmt, lev |-> a.lev, id |-> a.id])]
                                     ELSE lg.files[i]]]
    [] a.op = "live" -> IF a.lp \in {"t", "f"} /\ a.w \in {"t", "f"} THEN [lg EXCEPT !.live = (a.lp = "t"), !.wait = (a.w = "t")]
                        ELSE lg
    [] OTHER -> lg
Refused(lg, a) == CASE a.op = "setlevel" -> ~Valid(a.v)
                    [] a.op = "addfile" -> ~Valid(a.v)
                    [] a.op = "filelevel" -> ~Valid(a.v) \/ lg.files = <<>>
                    [] a.op = "live" -> ~(a.lp \in {"t", "f"} /\ a.w \in {"t", "f"})
                    [] OTHER -> FALSE

(* ------------------------- small closed world ----------------------------- *)
CONSTANTS Levels, MaxFiles, MaxOut
VARIABLES lg, last
lvars == <<lg, last>>
Vs == { [t |-> "int", i |-> l, s |-> ""] : l \in Levels } \cup { [t |-> "name", i |-> 0, s |-> x] : x \in {"debug", "error", "bogus"} }
Acts == { [op |-> o, v |-> v, fmt |-> "plain"] : o \in {"setlevel", "addfile", "filelevel"}, v \in Vs }
        \cup { [op |-> "msg", lev |-> l, id |-> 0] : l \in Levels \ {0} }
Init == lg = Fresh /\ last = [op |-> "init"]
Small(x) == Len(x.out) <= MaxOut /\ Len(x.files) <= MaxFiles /\ \A i \in 1..Len(x.files) : Len(x.files[i].out) <= MaxOut
Next == \E a \in Acts : lg' = Apply(lg, a) /\ last' = a /\ Small(lg')
Spec == Init /\ [][Next]_lvars
(* what a refused request leaves *)
RefusedStays == [][Refused(lg, last') => lg' = lg]_lvars
(* messages are only ever added, to whom they concern *)
OnlyAdded == [][last'.op # "msg" => lg'.out = lg.out /\ \A i \in 1..Len(lg.files) : lg'.files[i].out = lg.files[i].out]_lvars
OthersStay == [][last'.op = "filelevel" => lg'.con = lg.con /\ \A i \in 1..Len(lg.files) - 1 : lg'.files[i] = lg.files[i]]_lvars
Shown == [][last'.op = "msg" => (lg'.out # lg.out <=> last'.lev >= lg.con)]_lvars
==============================================================================
