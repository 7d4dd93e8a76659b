------------------------------- MODULE Settings -------------------------------
(* Settings of a peak extraction.  d: the data [x, y, dy, rep, fromd, pdf]:    *)
(* positions, values, uncertainties (integers), the qmax reported with the     *)
(* data and the one found in the data (thousandths), and whether it is a PDF.  *)
(* Settings s: qmax, super (thousandths), nyq, scale ("t"/"f"), cres           *)
(* (thousandths), eff (sequence, thousandths), rng (two integers), pf, bl, em, *)
(* ip (tokens); NONE, "none" and <<>> stand for unset.  bl is [t, p]: token    *)
(* and, for an estimated baseline, its parameters.                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
NONE == 2000000000
U == 1000
PiU == 3141593 \* pi in millionths

Unset == [qmax |-> NONE, super |-> NONE, nyq |-> "none", scale |-> "none", cres |-> NONE, eff |-> <<>>,
          rng |-> <<>>, pf |-> "none", bl |-> [t |-> "none", p |-> <<>>], em |-> "none", ip |-> "none"]
MaxOf(q) == CHOOSE v \in { q[i] : i \in 1..Len(q) } : \A i \in 1..Len(q) : q[i] <= v
MinOf(q) == CHOOSE v \in { q[i] : i \in 1..Len(q) } : \A i \in 1..Len(q) : q[i] >= v
RECURSIVE SumOver(_, _)
SumOver(q, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN q[i] + SumOver(q, S \ {i})
Round(a, b) == (2 * a + b) \div (2 * b)

DefQmax(d) == IF d.rep # NONE THEN d.rep ELSE IF d.fromd # NONE THEN d.fromd ELSE 0
DefNyq(q) == IF q > 0 THEN "t" ELSE "f"
DefCres(d, q) == IF d.pdf /\ q > 0 THEN Round(PiU, q) \* pi/qmax: millionths over thousandths
                 ELSE Round(4 * U * (d.x[Len(d.x)] - d.x[1]), Len(d.x))
DefEff(d) == IF \A i \in 1..Len(d.x) : d.dy[i] > 0 THEN [i \in 1..Len(d.x) |-> U * d.dy[i]]
             ELSE [i \in 1..Len(d.x) |-> (U * (MaxOf(d.y) - MinOf(d.y))) \div 20]
DefRng(d) == <<d.x[1], d.x[Len(d.x)]>>
InRange(d, r) == { i \in 1..Len(d.x) : r[1] <= d.x[i] /\ d.x[i] <= r[2] }
Estimated(d, r) == [t |-> "est", p |-> <<SumOver(d.x, InRange(d, r)), SumOver(d.y, InRange(d, r))>>]
DefBl == [t |-> "default", p |-> <<>>]

(* defaults for everything that is unset, and for the settings in A *)
Default(d, s, A) ==
  LET q  == IF ~d.pdf THEN NONE ELSE IF s.qmax = NONE \/ "qmax" \in A THEN DefQmax(d) ELSE s.qmax
      r  == IF s.rng = <<>> \/ "rng" \in A THEN DefRng(d)
            ELSE <<IF s.rng[1] = NONE THEN d.x[1] ELSE s.rng[1], IF s.rng[2] = NONE THEN d.x[Len(d.x)] ELSE s.rng[2]>>
      e  == IF s.eff = <<>> \/ "effective_dy" \in A \/ (d.pdf /\ "dg" \in A) THEN DefEff(d)
            ELSE IF Len(s.eff) = 1 THEN [i \in 1..Len(d.x) |-> s.eff[1]] ELSE s.eff
      b  == IF s.bl.t = "none" \/ "baseline" \in A \/ s.bl.t = "badfn" THEN DefBl
            ELSE IF s.bl.t = "fn" THEN Estimated(d, r) ELSE s.bl
  IN [qmax |-> q,
      super |-> IF ~d.pdf THEN NONE ELSE IF s.super = NONE \/ "supersample" \in A THEN 4 * U ELSE s.super,
      nyq |-> IF ~d.pdf THEN "none" ELSE IF s.nyq = "none" \/ "nyquist" \in A THEN DefNyq(q) ELSE s.nyq,
      scale |-> IF ~d.pdf THEN "none" ELSE IF s.scale = "none" \/ "scale" \in A THEN "f" ELSE s.scale,
      cres |-> IF s.cres = NONE \/ "cres" \in A THEN DefCres(d, q) ELSE s.cres,
      eff |-> e, rng |-> r,
      pf |-> IF s.pf = "none" \/ "pf" \in A THEN "default" ELSE s.pf,
      bl |-> b,
      em |-> IF s.em = "none" \/ "error_method" \in A THEN "AIC" ELSE s.em,
      ip |-> IF s.ip = "none" \/ "initial_peaks" \in A THEN "default" ELSE s.ip]

(* settings given explicitly; kw: sequence of [k, i, t, q]: name and value, as an *)
(* integer, token or sequence of integers, whichever the setting takes           *)
AUTO == 1999999999 \* "automatic"
Field(k) == CASE k = "supersample" -> "super" [] k = "nyquist" -> "nyq" [] k = "effective_dy" -> "eff" [] k = "dg" -> "eff"
              [] k = "baseline" -> "bl" [] k = "error_method" -> "em" [] k = "initial_peaks" -> "ip" [] OTHER -> k
Known(d) == {"effective_dy", "rng", "pf", "initial_peaks", "baseline", "cres", "error_method"}
            \cup (IF d.pdf THEN {"qmax", "supersample", "nyquist", "scale", "dg"} ELSE {})
Put1(d, s, e) ==
  LET f == Field(e.k) IN
  CASE f = "qmax" -> [s EXCEPT !.qmax = IF e.i = AUTO THEN d.fromd ELSE e.i]
    [] f = "super" -> [s EXCEPT !.super = e.i]
    [] f = "cres" -> [s EXCEPT !.cres = e.i]
    [] f = "nyq" -> [s EXCEPT !.nyq = e.t]
    [] f = "scale" -> [s EXCEPT !.scale = e.t]
    [] f = "eff" -> [s EXCEPT !.eff = e.q]
    [] f = "rng" -> [s EXCEPT !.rng = e.q]
    [] f = "pf" -> [s EXCEPT !.pf = e.t]
    [] f = "bl" -> [s EXCEPT !.bl = [t |-> e.t, p |-> e.q]]
    [] f = "em" -> [s EXCEPT !.em = e.t]
    [] f = "ip" -> [s EXCEPT !.ip = e.t]
RECURSIVE Put(_, _, _)
Put(d, s, kw) == IF kw = <<>> THEN s ELSE Put(d, Put1(d, s, Head(kw)), Tail(kw))
Keys(kw) == { kw[i].k : i \in 1..Len(kw) }
Allowed(d, kw) ==
  /\ Keys(kw) \subseteq Known(d)
  /\ ~({"dg", "effective_dy"} \subseteq Keys(kw))
  /\ \A i \in 1..Len(kw) : /\ kw[i].k = "supersample" => kw[i].i >= U
                           /\ kw[i].k = "qmax" /\ kw[i].i = AUTO => d.fromd # NONE
Set(d, s, kw) == Default(d, Put(d, s, kw), {})

(* ------------------------- small closed world ----------------------------- *)
CONSTANTS Steps
VARIABLES dat, s, ex, n
svars == <<dat, s, ex, n>>
Data == { [x |-> <<0, 2, 4>>, y |-> <<1, 5, 0>>, dy |-> dy, rep |-> r, fromd |-> f, pdf |-> p] :
            dy \in { <<1, 2, 1>>, <<1, 0, 1>> }, r \in {NONE, 0, 2000}, f \in {NONE, 3000}, p \in BOOLEAN }
E(k, i, t, q) == [k |-> k, i |-> i, t |-> t, q |-> q]
Kw(d) == { kv \in { E("qmax", 0, "", <<>>), E("qmax", 1000, "", <<>>), E("qmax", AUTO, "", <<>>), E("supersample", 2000, "", <<>>), E("supersample", 500, "", <<>>),
            E("nyquist", 0, "t", <<>>), E("nyquist", 0, "f", <<>>), E("scale", 0, "t", <<>>), E("cres", 7, "", <<>>),
            E("effective_dy", 0, "", <<500>>), E("effective_dy", 0, "", <<5, 6, 7>>), E("rng", 0, "", <<NONE, 2>>), E("rng", 0, "", <<2, NONE>>),
            E("pf", 0, "p1", <<>>), E("baseline", 0, "fn", <<>>), E("baseline", 0, "b1", <<>>), E("baseline", 0, "badfn", <<>>) } :
              Allowed(d, <<kv>>) }
Init == dat \in Data /\ s = Unset /\ ex = <<>> /\ n = 0
Without(f) == [i \in 1..Len(SelectSeq(ex, LAMBDA kv : Field(kv.k) # f)) |-> SelectSeq(ex, LAMBDA kv : Field(kv.k) # f)[i]]
DoSet == \E kv \in Kw(dat) : s' = Set(dat, s, <<kv>>) /\ ex' = Append(Without(Field(kv.k)), kv)
DoDef == \E a \in Known(dat) : s' = Default(dat, s, {a}) /\ ex' = Without(Field(a))
DoClear == s' = Unset /\ ex' = <<>>
Next == n < Steps /\ (DoSet \/ DoDef \/ DoClear) /\ n' = n + 1 /\ dat' = dat
Spec == Init /\ [][Next]_svars
(* what was given explicitly is in effect *)
Explicit == \A j \in 1..Len(ex) : LET kv == ex[j]
                                      f == Field(kv.k) IN
   CASE f = "eff" -> \A i \in 1..Len(dat.x) : s.eff[i] = kv.q[IF Len(kv.q) = 1 THEN 1 ELSE i]
     [] f = "rng" -> \A i \in 1..2 : kv.q[i] = NONE \/ s.rng[i] = kv.q[i]
     [] f = "bl" -> s.bl.t = IF kv.t = "fn" THEN "est" ELSE IF kv.t = "badfn" THEN "default" ELSE kv.t
     [] f = "qmax" -> s.qmax = IF kv.i = AUTO THEN dat.fromd ELSE kv.i
     [] f = "super" -> s.super = kv.i
     [] f = "cres" -> s.cres = kv.i
     [] f = "nyq" -> s.nyq = kv.t
     [] f = "scale" -> s.scale = kv.t
     [] f = "pf" -> s.pf = kv.t
     [] OTHER -> TRUE
(* after any setting nothing is unset *)
Complete == s = Unset \/ /\ Len(s.eff) = Len(dat.x) /\ Len(s.rng) = 2 /\ NONE \notin {s.cres, s.rng[1], s.rng[2]}
                         /\ "none" \notin {s.pf, s.bl.t, s.em, s.ip}
                         /\ (dat.pdf => NONE \notin {s.qmax, s.super} /\ "none" \notin {s.nyq, s.scale})
Idempotent == s = Unset \/ Default(dat, s, {}) = s
(* defaulting one setting of a complete extraction leaves the others alone *)
Independent == [][s # Unset => \A a \in Known(dat) : \A f \in DOMAIN s \ {Field(a)} : Default(dat, s, {a})[f] = s[f]]_svars
=============================================================================
