------------------------------ MODULE FitTrace ------------------------------
(* Recorded fits.  Peaks: [own, kind, ids, v, free, rem]: ids are tokens of   *)
(* the exact parameter values, v the values times 10^4.  Kinds of function:   *)
(*   "poly"  value(x) = sum_k par_k x^k, position = first coefficient         *)
(*   "hat"   value(x) = par_2 * max(0, 3 - |x - par_1|), position = par_1     *)
EXTENDS TraceBatch
F == INSTANCE Fit WITH NPts <- 1, MaxV <- 1, s <- 0, best <- 0, act <- 0
Sc == 10000
AbsI(v) == IF v < 0 THEN -v ELSE v
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
RECURSIVE SumOver(_, _)
SumOver(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumOver(f, n - 1)

(* derivative of peak p at x by its parameter k (hats: by the amplitude only) *)
Basis(p, k, x) == IF p.kind = "poly" THEN Pow(x, k - 1)
                  ELSE Max2(0, 3 - AbsI(x - p.v[1] \div Sc))
(* value times 10^4 *)
Val(p, x) == IF p.kind = "poly" THEN SumOver([k \in 1..Len(p.v) |-> p.v[k] * Pow(x, k - 1)], Len(p.v))
             ELSE p.v[2] * Basis(p, 2, x)
Total(m, x) == SumOver([i \in 1..Len(m) |-> Val(m[i], x)], Len(m))
Above(tr) == { i \in 1..Len(tr.x) : tr.y[i] * Sc - Total(tr.bl, tr.x[i]) - tr.e[i] * Sc >= 0 }
(* normal equations of the free parameters, uncertainties being 1 or another number *)
Far(tr) == IF \E i \in 1..Len(tr.e) : tr.e[i] # 1 THEN tr.e[CHOOSE i \in 1..Len(tr.e) : tr.e[i] # 1] ELSE 2
Optimal(tr, s, m) ==
  \A i \in 1..Len(m) : \A k \in { j \in 1..Len(m[i].free) : m[i].free[j] } :
    LET g == SumOver([q \in 1..F!Size(s) |->
               LET p == s.lo + q - 1 IN
               (tr.y[p] * Sc - Total(m, tr.x[p])) * Basis(m[i], k, tr.x[p]) * ((Far(tr) * Far(tr)) \div (tr.e[p] * tr.e[p]))], F!Size(s))
    IN AbsI(g) <= 15 * Far(tr) * Far(tr) * F!Size(s) * Max2(1, Basis(m[i], k, tr.x[s.hi])) * Max2(1, Basis(m[i], k, tr.x[s.lo])) + 2000
NFree(m) == SumOver([i \in 1..Len(m) |-> Cardinality({ j \in 1..Len(m[i].free) : m[i].free[j] })], Len(m))

Strip(m) == [i \in 1..Len(m) |-> [own |-> m[i].own, ids |-> m[i].ids, free |-> m[i].free, rem |-> m[i].rem]]
SameParts(m1, m2) == Strip(m1) = Strip(m2)
Start(tr) == [model |-> tr.model, bl |-> tr.bl, lo |-> tr.lo, hi |-> tr.hi, never |-> (tr.lo..tr.hi) \cap Above(tr) = {}, last |-> 0]
(* removable hats which cannot be seen from the region *)
Unseen(tr, s, p) == /\ p.rem /\ p.kind = "hat"
                    /\ p.v[1] < Sc * tr.x[s.lo] \/ p.v[1] >= Sc * tr.x[s.hi]
                    /\ \A q \in s.lo..s.hi : Val(p, tr.x[q]) < tr.e[q] * Sc

Outcome(tr, s, e) ==
  LET o0 == [estimate |-> e.estimate, est |-> e.est, epeak |-> e.epeak[1], justify |-> e.justify, grow |-> e.grow]
      sg == F!Begin(s, o0)
      nf == NFree(sg.model) + (IF e.fitbl THEN NFree(s.bl) ELSE 0)
  IN o0 @@ [solver |-> IF nf >= F!Size(s) THEN "failed" ELSE IF nf = 0 /\ ~(e.fitbl /\ NFree(s.bl) > 0) THEN "done" ELSE e.solver,
            cmp |-> e.cmp, cand |-> e.model, candbl |-> e.bl, begun |-> sg.model]
(* what may be left of the starting model once invisible peaks are dropped: *)
(* the observed model if it was kept, otherwise only its length matters      *)
Outside(tr, s, p) == p.v[1] < Sc * tr.x[s.lo] \/ p.v[1] >= Sc * tr.x[s.hi]
MaybeGone(tr, s, p) == p.rem /\ (p.kind = "poly" \/ Outside(tr, s, p))
SurelyGone(tr, s, p) == p.rem /\ p.kind = "hat" /\ Outside(tr, s, p) /\ \A q \in s.lo..s.hi : Basis(p, 2, tr.x[q]) = 0
Cands(tr, s, e, m) ==
  IF e.ret THEN {e.model}
  ELSE { [i \in 1..n |-> e.epeak[1]] : n \in (Len(m) - Cardinality({ i \in 1..Len(m) : MaybeGone(tr, s, m[i]) }))
                                         ..(Len(m) - Cardinality({ i \in 1..Len(m) : SurelyGone(tr, s, m[i]) })) }
Results(tr, s, e) ==
  LET o == Outcome(tr, s, e) IN
  IF e.op = "grow" THEN { [ret |-> FALSE, s |-> F!Grow(s, e.lo, e.hi, Above(tr))] }
  ELSE { IF e.op = "fit" THEN F!Fit(s, [o EXCEPT !.cand = c]) ELSE F!Contingent(s, [o EXCEPT !.cand = c], e.minpoints, e.thr) :
           c \in Cands(tr, s, e, o.begun) }

Kept(tr, s, e, o) == (* clauses on a model which was kept *)
  LET sg == o.begun IN {
   <<"the kept model has the better or equal quality reported", e.qual = e.qpost>>,
   <<"peaks sorted", \A i \in 1..(Len(e.model) - 1) : e.model[i].v[1] <= e.model[i + 1].v[1]>>,
   <<"only peaks of the starting model", \A i \in 1..Len(e.model) : \E j \in 1..Len(sg) : sg[j].own = e.model[i].own>>,
   <<"every peak at most once", \A i \in 1..Len(e.model) : \A j \in 1..Len(e.model) : e.model[i].own = e.model[j].own => i = j>>,
   <<"flags of the kept peaks", \A i \in 1..Len(e.model) : \A j \in 1..Len(sg) : sg[j].own = e.model[i].own =>
        sg[j].free = e.model[i].free /\ sg[j].rem = e.model[i].rem>>,
   <<"fixed parameters unchanged", \A i \in 1..Len(e.model) : \A j \in 1..Len(sg) : sg[j].own = e.model[i].own =>
        \A k \in 1..Len(sg[j].ids) : ~sg[j].free[k] => sg[j].ids[k] = e.model[i].ids[k]>>,
   <<"peaks dropped may be dropped", \A j \in 1..Len(sg) : (\E i \in 1..Len(e.model) : e.model[i].own = sg[j].own)
        \/ (sg[j].rem /\ (sg[j].kind = "hat" => (\/ sg[j].v[1] < Sc * tr.x[s.lo] \/ sg[j].v[1] >= Sc * tr.x[s.hi])))>>,
   <<"what can be seen is not dropped", \A j \in 1..Len(sg) : (sg[j].kind = "hat" /\ ~sg[j].free[2] /\ ~\E i \in 1..Len(e.model) : e.model[i].own = sg[j].own)
        => Unseen(tr, s, sg[j])>>,
   <<"peaks which cannot be seen are dropped", \A i \in 1..Len(e.model) : ~Unseen(tr, s, e.model[i])>>,
   <<"baseline kept unless it is fitted", e.fitbl \/ SameParts(e.bl, s.bl)>>,
   <<"fixed baseline parameters", Len(e.bl) = Len(s.bl) /\ \A i \in 1..Len(e.bl) :
        e.bl[i].free = s.bl[i].free /\ \A k \in 1..Len(e.bl[i].free) : ~e.bl[i].free[k] => e.bl[i].ids[k] = s.bl[i].ids[k]>>,
   <<"least squares optimum over the region",
        \/ \E j \in 1..Len(sg) : ~SurelyGone(tr, s, sg[j]) /\ ~\E i \in 1..Len(e.model) : e.model[i].own = sg[j].own
        \/ Optimal(tr, s, IF e.fitbl THEN e.model \o e.bl
                          ELSE e.model \o [i \in 1..Len(e.bl) |-> [e.bl[i] EXCEPT !.free = [k \in 1..Len(@) |-> FALSE]]])>> }

Bad(tr, s, e) ==
  IF e.op = "edit" THEN {}
  ELSE IF e.op = "reduce" THEN Failing({
    <<"no reduction leaves model and baseline alone", e.ret \/ (SameParts(e.model, s.model) /\ SameParts(e.bl, s.bl))>>,
    <<"reduction keeps fixed parameters", \A i \in 1..Len(e.model) : \A j \in 1..Len(s.model) : s.model[j].own = e.model[i].own =>
        \A k \in 1..Len(s.model[j].ids) : ~s.model[j].free[k] => s.model[j].ids[k] = e.model[i].ids[k]>>,
    <<"reduction keeps required peaks", \A j \in 1..Len(s.model) : s.model[j].rem \/ \E i \in 1..Len(e.model) : e.model[i].own = s.model[j].own>>,
    <<"extent after reduction", e.lo = s.lo /\ e.hi = s.hi /\ e.never = s.never>> })
  ELSE
  LET o == Outcome(tr, s, e)
      Clauses(r) == Failing({
         <<"result of " \o e.op, e.ret = r.ret>>,
         <<"model after " \o e.op, e.ret # r.ret \/ SameParts(e.model, r.s.model)>>,
         <<"baseline after " \o e.op, SameParts(e.bl, r.s.bl)>>,
         <<"extent after " \o e.op, e.lo = r.s.lo /\ e.hi = r.s.hi>>,
         <<"worth fitting after " \o e.op, e.never = r.s.never>>,
         <<"size at last fit after " \o e.op, e.last = r.s.last>> }
         \cup (IF e.ret /\ r.ret THEN Kept(tr, s, e, o) ELSE {}))
      all == { Clauses(r) : r \in Results(tr, s, e) }
  IN IF {} \in all THEN {} ELSE CHOOSE c \in all : TRUE
After(tr, s, e) == [model |-> e.model, bl |-> e.bl, lo |-> e.lo, hi |-> e.hi, never |-> e.never, last |-> e.last]
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
