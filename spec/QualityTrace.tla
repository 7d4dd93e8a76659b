---------------------------- MODULE QualityTrace ----------------------------
EXTENDS TraceBatch
Q == INSTANCE Quality WITH MaxN <- 0, MaxK <- 0, MaxChi <- 0, crit <- 0, n <- 0, k <- 0, chi <- 0
AbsI(v) == IF v < 0 THEN -v ELSE v
U == 1000
Start(tr) == 0
EvalBad(e) ==
  LET k == Q!K(e.peaks, e.all) + e.shift
      chi4 == IF e.given >= 0 THEN e.given ELSE Q!Chi4(e.res, e.err2)
      n == Len(e.res)
  IN IF ~Q!Defined(k) THEN { <<"a negative number of parameters is refused", e.r = "refused">> }
     ELSE { <<"evaluation is possible", e.r = "ok">>,
            <<"chi-square", AbsI(4 * e.chi - chi4 * U) <= 4>>,
            <<"statistic", AbsI(4 * e.s * Q!PenDen(e.crit, k, n) - U * Q!Stat4(e.crit, chi4, k, n)) <= 4 * Q!PenDen(e.crit, k, n)>>,
            <<"returned and recorded statistic agree", e.same>>,
            <<"the model is not changed by evaluating it", e.kept>> }
GrowBad(e) ==
  LET k == Q!K(e.peaks, FALSE)
  IN { <<"growth is justified by the penalty", e.r = "ok" /\
          (e.j <=> Q!Justified(e.crit, IF e.given >= 0 THEN e.given ELSE Q!Chi4(e.res, e.err2), k, e.k2, Len(e.res)))>>,
       <<"the model is not changed by evaluating it", e.kept>> }
CmpBad(e) == { <<"comparison " \o e.c[i].op, e.c[i].v <=> Q!Cmp(e.c[i].op, e.higher, e.a, e.b)>> : i \in 1..Len(e.c) }
             \cup { <<"qualities of different methods, or not evaluated ones, are not compared", e.refused>> }
(* Akaike weights and probabilities: logarithms, probabilities and statistics in thousandths *)
ProbBad(e) ==
  { <<"weight of the best is one", \A i \in 1..Len(e.s) : (\A j \in 1..Len(e.s) : e.s[i] <= e.s[j]) => AbsI(e.w[i]) <= 1>>,
    <<"weights follow exp(-difference/2)", \A i, j \in 1..Len(e.s) : AbsI(2 * (e.w[i] - e.w[j]) + (e.s[i] - e.s[j])) <= 6>>,
    <<"probabilities follow exp(-difference/2)", \A i, j \in 1..Len(e.s) : AbsI(2 * (e.lp[i] - e.lp[j]) + (e.s[i] - e.s[j])) <= 6>>,
    <<"probabilities sum to one", AbsI(e.sum - 1000000) <= 1>> }
Bad(tr, s, e) == Failing(CASE e.op = "evaluate" -> EvalBad(e) [] e.op = "grow" -> GrowBad(e)
                           [] e.op = "compare" -> CmpBad(e) [] e.op = "probs" -> ProbBad(e))
After(tr, s, e) == s
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
