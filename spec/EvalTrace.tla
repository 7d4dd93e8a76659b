----------------------------- MODULE EvalTrace -----------------------------
EXTENDS TraceBatch
E == INSTANCE Eval WITH V <- {0}, X <- {0}, m <- 0, xs <- 0, rng <- 0
Start(tr) == 0
R(e) == { e.rng[i] : i \in 1..Len(e.rng) }
AbsI(v) == IF v < 0 THEN -v ELSE v
(* tolerance comparison of fixed point sequences *)
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : AbsI(a[i] - b[i]) <= tol + AbsI(b[i]) \div 100000
Bad(tr, s, e) ==
  IF e.op = "value" THEN
     Failing({ <<"part value", e.ok /\ e.res = E!Value(tr.m[e.i], tr.xs, R(e))>>,
               <<"evaluation leaves the model alone", e.m = tr.m>> })
  ELSE IF e.op = "jac" THEN
     Failing({ <<"part derivatives", e.ok /\ e.res = E!Jac(tr.m[e.i], tr.xs, R(e))>>,
               <<"evaluation leaves the model alone", e.m = tr.m>> })
  ELSE IF e.op = "foreign" THEN
     Failing({ <<"foreign part refused", ~e.ok /\ e.refused>>, <<"evaluation leaves the model alone", e.m = tr.m>> })
  ELSE IF e.op = "mvalue" THEN
     Failing({ <<"model value is the sum of its parts", e.ok /\ e.res = E!MValue(tr.m, tr.xs, R(e))>>,
               <<"evaluation leaves the model alone", e.m = tr.m>> })
  ELSE IF e.op = "residual" THEN
     Failing({ <<"residual", e.ok /\ e.res = E!Resid(e.m, tr.xs, tr.ys, tr.err, R(e))>>,
               <<"residual evaluated at the given free parameters",
                 \A i \in 1..Len(tr.m) : \A k \in 1..Len(tr.m[i].pars) :
                   e.m[i].pars[k] = IF tr.m[i].free[k] THEN tr.m[i].pars[k] + e.delta ELSE tr.m[i].pars[k]>> })
  ELSE IF e.op = "rjac" THEN
     Failing({ <<"residual derivatives", e.ok /\ e.res = E!RJac(tr.m, tr.xs, tr.err, R(e))>> })
  ELSE IF e.op = "cluster" THEN
     LET pk == SubSeq(tr.m, 1, Len(tr.m) - 1)
         bl == IF e.hasbl THEN <<tr.m[Len(tr.m)]>> ELSE <<>>
         sl == E!Sel(R(e), Len(tr.xs)) IN
     Failing({ <<"region value", e.value = [j \in 1..Len(sl) |-> E!MVal(pk \o bl, tr.xs[sl[j]])]>>,
               <<"region baseline", e.valuebl = [j \in 1..Len(sl) |-> E!MVal(bl, tr.xs[sl[j]])]>>,
               <<"region residual", e.resid = [j \in 1..Len(sl) |-> tr.ys[sl[j]] - E!MVal(pk \o bl, tr.xs[sl[j]])]>>,
               <<"region value elsewhere", e.full = [i \in 1..Len(tr.xs) |-> E!MVal(pk \o bl, tr.xs[i])]>>,
               <<"region size", e.size = Len(sl)>>,
               <<"region parameters counted", /\ e.npars = Len(FlattenSeq([i \in 1..Len(pk \o bl) |-> (pk \o bl)[i].pars]))
                                              /\ e.nfree = Len(E!FreeCols(pk \o bl))
                                              /\ e.npk = Len(E!FreeCols(pk))>>,
               <<"data untouched", e.same>> })
  ELSE IF e.op = "builtin" THEN (* built-in functions: fixed point values over the range and over everything *)
     Failing({ <<"built-in value within the range",
                 /\ Len(e.part) = Len(e.full)
                 /\ \A i \in 1..Len(e.full) : IF i \in R(e) THEN AbsI(e.part[i] - e.full[i]) <= e.tol
                                              ELSE e.part[i] = 0>>,
               <<"built-in derivatives within the range",
                 \A k \in 1..Len(e.jfull) :
                   /\ e.jpart[k].c = (IF e.free[k] THEN "col" ELSE "none")
                   /\ e.jfull[k].c = e.jpart[k].c
                   /\ \A i \in 1..Len(e.jfull[k].v) :
                        IF i \in R(e) THEN AbsI(e.jpart[k].v[i] - e.jfull[k].v[i]) <= e.tol ELSE e.jpart[k].v[i] = 0>>,
               <<"one point evaluated alone", Near(e.single, [j \in 1..Len(e.single) |-> e.full[e.at[j]]], e.stol)>>,
               <<"derivative is the slope of the value",
                 \A k \in 1..Len(e.jfull) : e.free[k] =>
                   \A i \in 1..Len(e.full) : AbsI(e.jfull[k].v[i] - e.slope[k][i]) <= e.dtol[k] + AbsI(e.slope[k][i]) \div 200>>,
               <<"residual derivatives at the given parameters",
                 Len(e.rjac) = Len(e.rwant) /\ \A k \in 1..Len(e.rwant) : Near(e.rjac[k], e.rwant[k], 10)>>,
               <<"evaluation leaves parameters alone", e.same>> })
  ELSE {"unknown event"}
After(tr, s, e) == 0
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
