---------------------------- MODULE CutoffTrace ----------------------------
(* ratio: ratios k (squared, thousandths) of the integers d.                    *)
(* find: the step m at which a signal was found to end, r its ratios (10^-7 of   *)
(* the greatest); off: how far m is from whole steps of the spectrum (hundredths).*)
EXTENDS TraceBatch
C == INSTANCE Cutoff WITH Vals <- {}, N <- 0, d <- <<>>, n <- 0, l <- 0, r <- 0
Start(tr) == 0
Bad(tr, s, e) ==
  CASE e.op = "ratio" -> Failing({ <<"one ratio for every pair of windows", e.r = "ok" /\ Len(e.k) = C!Count(e.d)>>,
           <<"a ratio is that of the spreads of two windows", \A i \in 1..Len(e.k) : C!Ratio(e.d, i + 1, e.k[i], 3)>>,
           <<"the sequence is not changed", e.kept>> })
    [] e.op = "find" -> Failing({ <<"a cut-off is found if there are points enough, otherwise none", (e.r = "ok") = C!Determined(e.n)>>,
           <<"it is a step of the spectrum", e.r = "ok" => e.off >= -5 /\ e.off <= 55>>,
           <<"it is where the ratio bends down most sharply", e.r = "ok" => C!Sharpest(e.ratios, e.m, e.tol)>>,
           <<"its uncertainty is a step of the spectrum of the data", e.dq>>,
           <<"the data is not changed", e.kept>> })
    [] e.op = "units" -> Failing({ <<"it is converted as the inverse of lengths are", e.r = "ok" /\ e.q>>, <<"it does not depend on units of intensity", e.r = "ok" /\ e.i>> })
    [] e.op = "refuse" -> Failing({ <<"arrays of different length are refused", e.r = "ValueError">> })
After(tr, s, e) == 0
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
