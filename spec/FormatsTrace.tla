---------------------------- MODULE FormatsTrace ----------------------------
(* Events of one peak function (tr.M: largest width, in hundredths, tr.kind: gauss, overr,    *)
(* rippled: Gaussian with termination effects, rippledr; plain: one format).   *)
(* The state is the peak as known from its creation.                            *)
EXTENDS TraceBatch
R == INSTANCE Formats WITH KMax <- 0, MMax <- 0, M <- 0, pk <- 0, fmt <- "", n <- 0
None == [pos |-> 0, wid |-> 0, area |-> 0, ang |-> 0]
Start(tr) == None
Plain(tr) == tr.kind = "plain"
Res(tr, f) == R!Resolve(f, "internal", IF Plain(tr) THEN "internal" ELSE "pwa")
Made(tr, e) == R!Known(tr.M, Res(tr, e.f), e.p)
Tol(tr) == tr.M \div 8 + 14
Bad(tr, s, e) ==
  CASE e.op = "make" -> Failing({ <<"parameters of the domain are taken", e.r = "ok">>,
           <<"the parameters given are not modified", e.kept>>,
           <<"flags are as given", e.r # "ok" \/ e.flags = e.asked>>,
           <<"the peak is the one described", e.r # "ok" \/ R!Reads(Made(tr, e), "internal", e.q, Tol(tr))>> })
    [] e.op = "read" -> Failing({ <<"a peak is read in any format", e.r = "ok">>,
           <<"reading changes nothing", e.kept>>,
           <<"what is read describes the peak", e.r # "ok" \/ R!Reads(s, Res(tr, e.f), e.q, Tol(tr))>> })
    (* parameters of the peak in format e.f taken through the formats of a path *)
    [] e.op = "path" -> Failing({ <<"parameters convert along any path", e.r = "ok">>,
           <<"conversion changes nothing", e.kept>>,
           <<"the path does not matter", e.r # "ok" \/ R!Reads(s, Res(tr, e.f), e.q, Tol(tr))>> })
    (* derivatives of the conversion, by row of the new parameters, beside measured slopes of the conversion *)
    [] e.op = "grad" -> Failing({ <<"derivatives are given from and to any format", e.r = "ok">>, <<"conversion changes nothing", e.kept>>,
           <<"derivatives are the slopes of the conversion", e.r # "ok" \/ (Len(e.j) = Len(e.slope)
              /\ \A i \in 1..Len(e.j) : R!Near(e.j[i], e.slope[i], 200 + R!Abs(e.slope[i]) \div 1000))>>,
           <<"without conversion derivatives are those of the identity", ~e.same \/ e.r # "ok" \/
              \A i \in 1..Len(e.j) : e.j[i] \in {0, 1000000}>> })
    [] e.op = "curves" -> Failing({ <<"the curve is the same made from any format", e.r = "ok" /\ \A c \in 1..Len(e.vs) : Len(e.vs[c]) = Len(e.vs[1])
              /\ \A i \in 1..Len(e.vs[1]) : R!Near(e.vs[c][i], e.vs[1][i], 30 + R!Abs(e.vs[1][i]) \div 20000)>> })
    [] e.op = "shape" -> Failing({ <<"half the maximum is reached at half the width, and so on", \A i \in 1..Len(e.js) : R!Bell(s, e.js[i], e.av[i])>> })
    [] e.op = "area" -> Failing({ <<"the area is that of the curve", R!Near(FoldSeq(LAMBDA a, b : a + b, 0, e.dv), s.area, 60 + s.area \div 20000)>> })
    [] e.op = "max" -> LET sg == R!Sigma(s.wid) IN Failing(
         { <<"a maximum is reported exactly when there is one", (e.r = "ok") = (tr.kind = "gauss" \/ s.pos \div 2 > sg)>> } \cup
         (IF e.r # "ok" THEN {} ELSE
         { <<"the maximum is at the position", tr.kind # "gauss" \/ R!Near(e.x, s.pos, 2)>>,
           <<"the maximum is where the curve is flat", tr.kind # "overr" \/ R!Near((e.x \div 1000) * ((s.pos - e.x) \div 1000), R!Mul(sg, sg), 60000)>>,
           <<"the height is that of the curve there", R!Near(e.y, e.there, 4)>>,
           <<"no point nearby is higher", e.left < e.y /\ e.right < e.y>> }))
    [] e.op = "refuse" -> Failing({ <<e.what \o " is refused", e.r = "refused">>, <<"a refusal changes nothing", e.kept>> })
    [] e.op = "wide" -> Failing({ <<"a peak wider than allowed is refused", R!TooWide(tr.M, Res(tr, e.f), e.p) => e.r = "refused">>,
           <<"a peak as wide as allowed is taken", ~R!TooWide(tr.M, Res(tr, e.f), e.p) => e.r = "ok">> })
    (* one format only: parameters are the parameters *)
    [] e.op = "same" -> Failing({ <<"a function with one format returns its parameters", e.r = "ok" /\ e.q = e.p>>, <<"conversion changes nothing", e.kept>> })
After(tr, s, e) == IF e.op = "make" THEN Made(tr, e) ELSE s
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
==============================================================================
