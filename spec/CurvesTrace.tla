----------------------------- MODULE CurvesTrace -----------------------------
(* No state: each event is one function evaluated at points.                    *)
EXTENDS TraceBatch
R == INSTANCE Curves WITH CMax <- 0, XMax <- 0, c <- 0, x <- 0, s <- 0, r <- 0, j <- 0
Start(tr) == 0
Val(e, f(_)) == Len(e.v) = Len(e.x) /\ \A i \in 1..Len(e.x) : R!Near(e.v[i], f(e.x[i]), e.tol)
(* jac: one column per parameter, empty when the parameter is fixed *)
Jac(e, g(_, _)) == Len(e.jac) = Len(e.p) /\ \A k \in 1..Len(e.p) :
  IF e.free[k] THEN Len(e.jac[k]) = Len(e.x) /\ \A i \in 1..Len(e.x) : R!Near(e.jac[k][i], g(k, e.x[i]), e.tol) ELSE e.jac[k] = <<>>
Common(e) == { <<"evaluation changes nothing", e.kept>>, <<"evaluation succeeds", e.r = "ok">> }
Bad(tr, s, e) ==
  CASE e.op = "poly" -> Failing(Common(e) \cup (IF e.r # "ok" THEN {} ELSE
         { <<"a polynomial has its value", Val(e, LAMBDA x : R!Poly(e.p, x))>>,
           <<"a polynomial has its derivatives", Jac(e, LAMBDA k, x : R!PolyD(Len(e.p), k, x))>> }))
    [] e.op = "user" -> Failing(Common(e) \cup (IF e.r # "ok" THEN {} ELSE
         { <<"the user's function is evaluated", Val(e, LAMBDA x : R!User(e.w, e.p, x))>>,
           <<"without a derivative of the user none is made up", e.hasjac \/ (e.rj = "refused") = (\E k \in 1..Len(e.p) : e.free[k])>>,
           <<"the user's derivative is used", ~e.hasjac \/ (e.rj = "ok" /\ Jac(e, LAMBDA k, x : R!UserD(e.w, k, x)))>> }))
    [] e.op = "sphere" -> Failing(Common(e) \cup (IF e.r # "ok" THEN {} ELSE
         { <<"a sphere has its value", Val(e, LAMBDA j : R!Sphere(e.p[1], e.p[2], j))>>,
           <<"a sphere has its derivatives", Jac(e, LAMBDA k, j : IF k = 1 THEN R!SphereDs(e.p[1], e.p[2], j) ELSE R!SphereDR(e.p[1], e.p[2], j))>> }))
    [] e.op = "sequence" -> Failing(Common(e) \cup (IF e.r # "ok" THEN {} ELSE
         { <<"the curve passes through its points", \A i \in 1..Len(e.x) : R!Through(e.px, e.py, e.x[i], e.v[i], e.tol)>>,
           <<"no parameters, no derivatives", e.jac = <<>> >> }))
    [] e.op = "cubic" -> Failing(Common(e) \cup (IF e.r # "ok" THEN {} ELSE
         { <<"the curve interpolates its points", Val(e, LAMBDA k : R!Cubic64(e.p, k))>> }))
    [] e.op = "estimate" -> Failing({ <<"estimation is refused where not supported", e.possible \/ e.r = "refused">>,
           <<"estimation succeeds", ~e.possible \/ e.r = "ok">>, <<"estimation gives the right number of parameters", e.r # "ok" \/ e.n = e.np>>,
           <<"estimation changes nothing", e.kept>> })
    [] e.op = "refuse" -> Failing({ <<e.what \o " is refused", e.r = "refused">> })
After(tr, s, e) == s
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
==============================================================================
