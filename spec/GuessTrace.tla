----------------------------- MODULE GuessTrace -----------------------------
(* e.d: the data in units of its step and scale, e.M: the largest width        *)
(* allowed (10^-4 steps), e.g: the guess read as position, width (10^-4) and    *)
(* height at the position (10^-3).                                              *)
EXTENDS TraceBatch
K == INSTANCE Guess WITH Ys <- {}, N <- 0, d <- 0, last <- 0
Start(tr) == 0
Bad(tr, s, e) ==
  LET g == K!Guess(e.d, e.M) IN
  Failing({ <<"a peak is guessed exactly when there are three positive values", (e.r = "ok") = g.ok>>,
            <<"what cannot be guessed is refused as such", e.r \in {"ok", "refused"}>>,
            <<"the data is not changed", e.kept>> }
     \cup (IF ~(g.ok /\ e.r = "ok") THEN {} ELSE {
            <<"the middle is the weighted mean", K!Near(e.g.pos, g.pos, 3)>>,
            <<"the width meets the ends and the limit", K!Near(e.g.wid, g.wid, 6 + g.wid \div 1000)>>,
            <<"the height is the highest value", K!Near(e.g.top, g.top * 1000, 2 + g.top)>>,
            <<"parameters are of the domain", e.g.fit>> }))
After(tr, s, e) == 0
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
