--------------------------- MODULE RecoveryTrace ---------------------------
(* One search on data made of the hidden peaks: what came out, its baseline     *)
(* (level, against the one put in), the mean square of what is left in units of *)
(* the noise put in, and the points and kinds used.                             *)
EXTENDS TraceBatch
R == INSTANCE Recovery WITH L <- 0, MaxH <- 0, Gap <- 0, Errs <- 0, hidden <- 0, places <- {}, errs <- 0
Start(tr) == 0
(* what stands out of the uncertainty: the height of a Gaussian is .94 of its    *)
(* area by its width                                                            *)
Tall(e) == SelectSeq(e.got, LAMBDA p : p.w <= 0 \/ (940 * p.a) \div p.w > e.small)
Bad(tr, s, e) ==
  Failing({ <<"the search ends", e.r = "ok">> } \cup (IF e.r # "ok" THEN {} ELSE
    { <<"every peak there is found, and nothing else", Len(Tall(e)) = Len(e.hid)>>,
      <<"peaks are found where they are", Len(Tall(e)) = Len(e.hid) => R!Placed(e.hid, Tall(e), e.tol)>>,
      <<"peaks are found in their size", Len(Tall(e)) = Len(e.hid) => R!Sized(e.hid, Tall(e))>>,
      <<"peaks are in order", R!Sorted(e.got)>>,
      <<"the data is explained to its uncertainty", e.left <= 1000>>,
      <<"the baseline is found", R!Near(e.bl, e.bl0, e.bltol)>> }))
After(tr, s, e) == 0
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
