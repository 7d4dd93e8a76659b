-------------------------------- MODULE Fit --------------------------------
(* Refinement of one region of the data.  A region s is                      *)
(*   [model, bl, lo, hi, never, last]                                        *)
(* model: sequence of peaks; bl: baseline; lo..hi: its data points; last:    *)
(* its size when a fit was last attempted (0: never); never: no point of it  *)
(* rises to the uncertainty over the baseline.                               *)
(* o describes how the parts which are not the region's own behave:          *)
(*   estimate  may a first peak be estimated; est: "found"/"none"/"refused"  *)
(*   epeak     the estimated peak                                            *)
(*   solver    "done"/"failed": did the optimiser converge                   *)
(*   cand, candbl  the refined model and baseline                            *)
(*   cmp       quality of the refined model against the starting one         *)
(*   justify, grow  must simplicity be justified; would more peaks be        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

Size(s) == s.hi - s.lo + 1
None(s) == [ret |-> FALSE, s |-> s]

(* the region a fit starts from: with the estimated peak if it had none *)
Begin(s, o) == IF Len(s.model) = 0 /\ o.estimate /\ o.est = "found" THEN [s EXCEPT !.model = <<o.epeak>>] ELSE s
CanBegin(s, o) == ~s.never /\ (Len(s.model) > 0 \/ (o.estimate /\ o.est # "refused"))
Rejected(st, o) ==
  \/ o.solver = "failed"
  \/ o.cmp = "worse"
  \/ o.justify /\ Len(o.cand) = 1 /\ Len(st.model) > 0 /\ o.grow

Fit(s, o) ==
  IF ~CanBegin(s, o) THEN None(s)
  ELSE LET st == [Begin(s, o) EXCEPT !.last = Size(s)]
       IN IF Rejected(st, o) THEN None(st)
          ELSE [ret |-> TRUE, s |-> [st EXCEPT !.model = o.cand, !.bl = o.candbl]]

(* thr: growth threshold in quarters *)
Due(s, minpoints, thr) == IF s.last > 0 THEN 4 * Size(s) >= thr * s.last ELSE Size(s) >= minpoints
Contingent(s, o, minpoints, thr) ==
  IF s.never \/ ~Due(s, minpoints, thr) THEN None(s) ELSE Fit(s, [o EXCEPT !.justify = TRUE, !.estimate = TRUE])

(* above: points which rise to the uncertainty over the baseline *)
Grow(s, lo, hi, above) ==
  [s EXCEPT !.lo = lo, !.hi = hi, !.never = s.never /\ (lo..hi) \cap above = {}]

(* ---------------------------------------------------------------------- *)
(* Small closed world: peaks are [v: version, fix: fixed value], the quality *)
(* of a version is the version number itself.                                *)
CONSTANTS NPts, MaxV
VARIABLES s, best, act
fvars == <<s, best, act>>
PeakV == [v : 0..MaxV, fix : {7}]
Qual(m) == IF Len(m) = 0 THEN 0 ELSE m[1].v
Refined(m, v) == [i \in 1..Len(m) |-> [m[i] EXCEPT !.v = v]]
Outcomes(st0) ==
  { o \in { [estimate |-> e, est |-> k, epeak |-> [v |-> 1, fix |-> 7], solver |-> sv, justify |-> j, grow |-> g,
             cand |-> Refined(Begin(st0, [estimate |-> e, est |-> k, epeak |-> [v |-> 1, fix |-> 7]]).model, v),
             candbl |-> v,
             cmp |-> LET q == Qual(Begin(st0, [estimate |-> e, est |-> k, epeak |-> [v |-> 1, fix |-> 7]]).model)
                     IN IF v < q THEN "worse" ELSE IF v = q THEN "equal" ELSE "better"] :
             e \in BOOLEAN, k \in {"found", "none", "refused"}, sv \in {"done", "failed"}, j \in BOOLEAN, g \in BOOLEAN, v \in 0..MaxV } : TRUE }
Init == /\ \E lo \in 1..NPts : \E ab \in SUBSET (1..NPts) :
             s = [model |-> <<>>, bl |-> 0, lo |-> lo, hi |-> lo, never |-> lo \notin ab, last |-> 0, above |-> ab]
        /\ best = 0
        /\ act = "start"
FitStep == \E o \in Outcomes(s) : LET r == Fit(s, o) IN s' = r.s /\ act' = (IF r.ret THEN "kept" ELSE "none")
ContStep == \E o \in Outcomes(s) : \E mp \in 1..3 : \E t \in {4, 6, 8} :
              LET r == Contingent(s, o, mp, t) IN s' = r.s /\ act' = (IF r.ret THEN "kept" ELSE "none")
GrowStep == \E lo \in 1..s.lo : \E hi \in s.hi..NPts :
              s' = Grow(s, lo, hi, s.above) /\ act' = "grow"
Next == (FitStep \/ ContStep \/ GrowStep) /\ best' = IF Qual(s'.model) > best THEN Qual(s'.model) ELSE best
Spec == Init /\ [][Next]_fvars
(* quality never drops; a region not worth fitting never gets a model or a fit *)
NeverWorse == Qual(s.model) = best
NeverFit == s.never <=> (s.lo..s.hi) \cap s.above = {}
Untouched == s.never => Len(s.model) = 0 /\ s.last = 0 /\ s.bl = 0
FixedKept == \A i \in 1..Len(s.model) : s.model[i].fix = 7
LastBounded == s.last <= Size(s)
NoneMeansSame == [][act' = "none" => (s'.bl = s.bl /\ (Len(s.model) > 0 => s'.model = s.model))]_fvars
KeptNoWorse == [][act' = "kept" => Qual(s'.model) >= Qual(s.model)]_fvars
=============================================================================
