---------------------------- MODULE CommandLine ----------------------------
(* The settings an extraction has when the command-line tool has read its    *)
(* options.  Settings s: rng, qmax, nyq, scale, cres, super, pf, bl, em, eff. *)
(* Numbers are thousandths (NONE: unset), eff and baseline parameters are     *)
(* millionths.  An option is a record [o, n, t, q]: its name, a number, a     *)
(* token and a sequence of [v, c] (number, fixed) -- whichever it takes.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
NONE == 2000000000
AUTO == 1999999999
MaxOf(q) == CHOOSE v \in { q[i] : i \in 1..Len(q) } : \A i \in 1..Len(q) : q[i] <= v
MinOf(q) == CHOOSE v \in { q[i] : i \in 1..Len(q) } : \A i \in 1..Len(q) : q[i] >= v
Const(d, v) == [i \in 1..Len(d.y) |-> v]
(* the setting an option is about *)
About(o) == CASE o = "--range" -> "rng" [] o = "--qmax" -> "qmax" [] o \in {"--nyquist", "--no-nyquist"} -> "nyq"
              [] o \in {"--scale", "--no-scale"} -> "scale" [] o = "--cres" -> "cres" [] o = "--supersample" -> "super"
              [] o = "--pf" -> "pf" [] o \in {"--me", "-m"} -> "em"
              [] o \in {"--dg", "--dg-mode"} -> "eff"
              [] o \in {"--baseline", "--bcrystal", "--bsrmise", "--bpoly0", "--bpoly1", "--bpoly2", "--bseq", "--bspherical"} -> "bl"
              [] o \in {"--extract", "--no-extract"} -> "run" [] o = "--save" -> "save" [] OTHER -> "verbosity"
Last_(os, names) == LET I == { i \in 1..Len(os) : os[i].o \in names } IN
  IF I = {} THEN [o |-> "none", n |-> NONE, t |-> "", q |-> <<>>] ELSE os[CHOOSE i \in I : \A j \in I : j <= i]
Milli(q) == [i \in 1..Len(q) |-> q[i].v * 1000]
Free(q) == [i \in 1..Len(q) |-> ~q[i].c]
Bl(t, p, f) == [t |-> t, p |-> p, f |-> f]
(* -4 pi rho0 x, the slope free unless marked, the constant fixed *)
Crystal(x) == Bl("Polynomial 1", <<-((12566371 * x.v + 500) \div 1000), 0>>, <<~x.c, FALSE>>)
Baseline(o) ==
  CASE o.o = "--bcrystal" -> Crystal(o.q[1])
    [] o.o \in {"--bpoly0", "--bpoly1", "--bpoly2"} -> Bl("Polynomial " \o ToString(Len(o.q) - 1), Milli(o.q), Free(o.q))
    [] o.o = "--bspherical" -> Bl("NanoSpherical", Milli(o.q), Free(o.q))
    [] o.o = "--bseq" -> Bl(o.t, <<>>, <<>>)
    [] o.o = "--bsrmise" -> Bl("Polynomial 1", Milli(o.q), Free(o.q))
    [] OTHER -> Bl(o.t, <<>>, <<>>) (* a function: to be estimated *)
(* uncertainties: mode and amount, each with its default *)
Mode(d, os) == LET m == Last_(os, {"--dg-mode"}) g == Last_(os, {"--dg"}) IN
  IF m.o # "none" THEN m.t ELSE IF g.o # "none" /\ g.n # 0 THEN "absolute"
  ELSE IF d.dy # <<>> /\ \A i \in 1..Len(d.dy) : d.dy[i] > 0 THEN "dG-fraction" ELSE "max-fraction"
Amount(d, os) == LET g == Last_(os, {"--dg"}) IN
  IF g.o # "none" THEN g.n ELSE CASE Mode(d, os) = "absolute" -> NONE [] Mode(d, os) = "dG-fraction" -> 1000 [] OTHER -> 50
Eff(d, os) == LET a == Amount(d, os) m == Mode(d, os) IN
  CASE m = "absolute" -> Const(d, 1000 * a)
    [] m = "max-fraction" -> Const(d, a * MaxOf(d.y))
    [] m = "ptp-fraction" -> Const(d, a * (MaxOf(d.y) - MinOf(d.y)))
    [] m = "dG-fraction" -> [i \in 1..Len(d.dy) |-> a * d.dy[i]]
Chosen(os, names, s, v(_)) == LET o == Last_(os, names) IN IF o.o = "none" THEN s ELSE v(o)
BOpts == {"--baseline", "--bcrystal", "--bsrmise", "--bpoly0", "--bpoly1", "--bpoly2", "--bseq", "--bspherical"}
(* settings s of the data d after the options *)
Settle(d, s, os) ==
  [rng   |-> Chosen(os, {"--range"}, s.rng, LAMBDA o : <<o.q[1].v, o.q[2].v>>),
   qmax  |-> Chosen(os, {"--qmax"}, s.qmax, LAMBDA o : IF o.n = AUTO THEN d.fromd ELSE o.n),
   nyq   |-> Chosen(os, {"--nyquist", "--no-nyquist"}, s.nyq, LAMBDA o : IF o.o = "--nyquist" THEN "t" ELSE "f"),
   scale |-> Chosen(os, {"--scale", "--no-scale"}, s.scale, LAMBDA o : IF o.o = "--scale" THEN "t" ELSE "f"),
   cres  |-> Chosen(os, {"--cres"}, s.cres, LAMBDA o : o.n),
   super |-> Chosen(os, {"--supersample"}, s.super, LAMBDA o : o.n),
   pf    |-> Chosen(os, {"--pf"}, s.pf, LAMBDA o : o.t),
   em    |-> Chosen(os, {"--me", "-m"}, s.em, LAMBDA o : o.t),
   bl    |-> Chosen(os, BOpts, s.bl, LAMBDA o : Baseline(o)),
   eff   |-> Eff(d, os)]
Extracts(os) == Last_(os, {"--extract", "--no-extract"}).o # "--no-extract"
Saves(os) == Last_(os, {"--save"}).o # "none"
Level(os) == LET o == Last_(os, {"-i", "-q", "-s", "-v", "--informative", "--quiet", "--silent", "--verbose"}).o IN
  CASE o \in {"-i", "--informative"} -> 20 [] o \in {"-s", "--silent"} -> 50 [] o \in {"-v", "--verbose"} -> 10 [] OTHER -> 30
(* options that cannot be understood together with this data *)
Refused(d, os) == \/ Last_(os, {"--supersample"}).n < 1000
                  \/ Mode(d, os) = "absolute" /\ Amount(d, os) = NONE
                  \/ Mode(d, os) = "dG-fraction" /\ d.dy = <<>>

(* ------------------------------ closed world ------------------------------ *)
(* options are given one by one *)
CONSTANTS MaxLen
VARIABLES d, s0, os
lvars == <<d, s0, os>>
Opt(o, n, t, q) == [o |-> o, n |-> n, t |-> t, q |-> q]
F(v) == [v |-> v, c |-> FALSE]
C(v) == [v |-> v, c |-> TRUE]
Options == { Opt("--range", 0, "", <<F(1), F(2)>>), Opt("--qmax", 7, "", <<>>), Opt("--qmax", AUTO, "", <<>>), Opt("--nyquist", 0, "", <<>>), Opt("--no-nyquist", 0, "", <<>>),
  Opt("--scale", 0, "", <<>>), Opt("--cres", 0, "", <<>>), Opt("--supersample", 2000, "", <<>>), Opt("--pf", 0, "P", <<>>), Opt("-m", 0, "AICc", <<>>),
  Opt("--bpoly1", 0, "", <<F(1), C(2)>>), Opt("--bcrystal", 0, "", <<C(30)>>), Opt("--dg", 20, "", <<>>), Opt("--dg-mode", 0, "ptp-fraction", <<>>),
  Opt("--dg-mode", 0, "absolute", <<>>), Opt("--no-extract", 0, "", <<>>), Opt("--extract", 0, "", <<>>), Opt("-v", 0, "", <<>>) }
Unset == [rng |-> <<>>, qmax |-> NONE, nyq |-> "none", scale |-> "none", cres |-> NONE, super |-> NONE, pf |-> "none", em |-> "none", bl |-> Bl("none", <<>>, <<>>), eff |-> <<>>]
Init == /\ d \in { [y |-> <<3, -1>>, dy |-> q, fromd |-> 9] : q \in {<<>>, <<0, 2>>, <<1, 2>>} } /\ os = <<>> /\ s0 \in {Unset, [Unset EXCEPT !.qmax = 5, !.nyq = "f", !.pf = "Q"]}
Next == \E o \in Options : Len(os) < MaxLen /\ os' = Append(os, o) /\ UNCHANGED <<d, s0>>
Spec == Init /\ [][Next]_lvars
Vars == {"rng", "qmax", "nyq", "scale", "cres", "super", "pf", "em", "bl", "eff"}
Ok == ~Refused(d, os)
(* an option changes its own setting only, and gives it whatever was there before *)
Own == [][(~Refused(d, os) /\ ~Refused(d, os')) => \A v \in Vars : v = About(os'[Len(os')].o) \/ Settle(d, s0, os')[v] = Settle(d, s0, os)[v]]_lvars
LastWins == \A v \in Vars \ {"eff"} : Ok /\ os # <<>> /\ About(os[Len(os)].o) = v => Settle(d, s0, os)[v] = Settle(d, Unset, <<os[Len(os)]>>)[v]
Kept == Ok => \A v \in Vars \ {"eff"} : (\A i \in 1..Len(os) : About(os[i].o) # v) => Settle(d, s0, os)[v] = s0[v]
Uncertain == Ok => Len(Settle(d, s0, os).eff) = Len(d.y)
==============================================================================
