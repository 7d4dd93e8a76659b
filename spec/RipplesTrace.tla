---------------------------- MODULE RipplesTrace ----------------------------
(* cut: harmonics a in, b out (10^-4), X the cut-off (hundredths of the lowest   *)
(* frequency), odd: largest part of the output that is no such harmonic.          *)
(* linear: any two signals and their sum, cut; grid: points of an extended grid.   *)
(* curve: values v of a rippled peak beside the peak convolved with the sinc of     *)
(* the cut-off, c; p: values of the peak itself (10^-5 of its height).              *)
EXTENDS TraceBatch
R == INSTANCE Ripples WITH Amps <- {}, H <- 0, Xs <- {}, sig <- 0, top <- 0, n <- 0
AbsI(v) == IF v < 0 THEN -v ELSE v
Start(tr) == 0
MaxDiff(u, v) == LET D == { AbsI(u[i] - v[i]) : i \in 1..Len(u) } IN IF D = {} THEN 0 ELSE CHOOSE m \in D : \A x \in D : x <= m
Bad(tr, s, e) ==
  CASE e.op = "cut" -> Failing({ <<"what oscillates more slowly than the cut-off is kept, the rest removed", e.r = "ok" /\ R!Cut(e.X, e.a, e.b, 3)>>,
           <<"nothing else appears", e.odd <= 3>>, <<"the signal given is not changed", e.kept>> })
    [] e.op = "linear" -> Failing({ <<"signals are cut independently", e.r = "ok" /\ Len(e.sum) = Len(e.x) /\ \A i \in 1..Len(e.x) : AbsI(e.sum[i] - e.m * e.x[i] - e.y[i]) <= 6 + 2 * AbsI(e.m)>> })
    [] e.op = "grid" -> Failing({ <<"the points asked for are where they are said to be", e.r = "ok" /\ e.same>>,
           <<"the grid is even", e.even>>,
           <<"the grid extends far enough and stays positive", R!Extension(e.first, e.ext, e.g)>> })
    [] e.op = "curve" -> Failing({ <<"every point asked for has a value, others have none", e.r = "ok" /\ Len(e.v) = Len(e.c) /\ e.outside = 0>>,
           <<"the curve is that of the peak without what is above the cut-off", Len(e.v) = Len(e.c) /\ MaxDiff(e.v, e.c) <= e.tol>>,
           <<"the peak is not changed", e.kept>> })
After(tr, s, e) == 0
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
