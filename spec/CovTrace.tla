------------------------------ MODULE CovTrace ------------------------------
EXTENDS TraceBatch
K == INSTANCE Cov WITH Vals <- {0}, c <- 0, act <- 0
AbsI(v) == IF v < 0 THEN -v ELSE v
Start(tr) == K!Undefined
Sel(e) == { e.sel[i] : i \in 1..Len(e.sel) }
Ix(s, key) == K!Index(s.parts, key)
Post(s, e) ==
  IF e.op = "set" THEN K!Set(s, e.parts, e.M)
  ELSE IF e.op = "clear" THEN K!Undefined
  ELSE IF e.op = "transform" /\ s.def THEN K!Transform(s, Sel(e), e.num, e.den)
  ELSE IF e.op = "select" THEN K!Select(s, e.ps)
  ELSE s
RECURSIVE Dot(_, _, _)
Dot(a, b, k) == IF k = 0 THEN 0 ELSE a[k] * b[k] + Dot(a, b, k - 1)
(* the whole projected object after each event *)
Bad(tr, s, e) ==
  LET p == Post(s, e) IN
  IF e.op = "fitcov" THEN (* covariance of a linear least squares fit: C * J^T J = chi^2/dof * 1 (C is 10^5 times) *)
     Failing({ <<"fit covariance", \A i \in 1..Len(e.C) : \A j \in 1..Len(e.C) :
                  AbsI(Dot(e.C[i], e.A[j], Len(e.A)) - (IF i = j THEN e.s ELSE 0)) <= e.tol>>,
               <<"fit covariance of fixed parameters is zero", e.fixedzero>> })
  ELSE IF e.op = "roundtrip" THEN
     Failing({ <<"transformation there and back restores values", e.v1 = e.v0>>,
               <<"transformation there and back restores covariances",
                  \A i \in 1..Len(e.m0) : AbsI(e.m1[i] - e.m0[i]) <= 2 + AbsI(e.m0[i]) \div 10000>>,
               <<"transformed covariance is J V J^T",
                  \A i \in 1..Len(e.mt) : AbsI(e.mt[i] - e.mx[i]) <= 3 + AbsI(e.mx[i]) \div 2000>>,
               <<"transformed values", \A i \in 1..Len(e.vt) : AbsI(e.vt[i] - e.vx[i]) <= 2>> })
  ELSE
  Failing({
    <<"outcome of " \o e.op,
       e.r = (IF e.op = "set" THEN (IF K!FitsShape(e.parts, e.M) THEN "ok" ELSE "refused")
              ELSE IF e.op \in {"clear", "text", "select"} THEN "ok"
              ELSE IF e.op = "gone" THEN "refused"
              ELSE IF s.def THEN "ok" ELSE "undefined")>>,
    <<"definedness after " \o e.op, e.def = p.def>> }
  \cup (IF ~(e.def /\ p.def) THEN {} ELSE {
    <<"values after " \o e.op, e.vals = FlattenSeq([i \in 1..Len(p.parts) |-> p.parts[i].pars])>>,
    <<"covariances after " \o e.op, e.cov = p.M>> })
  \cup (IF e.op = "corr" /\ s.def /\ e.r = "ok" THEN {
    <<"correlation", LET a == Ix(s, e.a)
                         b == Ix(s, e.b)
                         va == s.M[a][a]
                         vb == s.M[b][b] IN
        IF va = 0 \/ vb = 0 THEN e.v = 0
        ELSE AbsI(e.v * e.sa * e.sb - s.M[a][b] * 10000) <= e.sa * e.sb /\ e.sa * e.sa = va /\ e.sb * e.sb = vb>> } ELSE {})
  \cup (IF e.op = "get" /\ s.def /\ e.r = "ok" THEN {
    <<"value and uncertainty", /\ e.v = s.parts[e.a[1]].pars[e.a[2]]
                               /\ e.u * e.u = s.M[Ix(s, e.a)][Ix(s, e.a)]>> } ELSE {})
  \cup (IF e.op = "text" /\ e.r = "ok" THEN {
    <<"printed values and uncertainties",
       IF ~s.def THEN e.lines = <<>> /\ e.one = <<>>
       ELSE LET shown(k) == <<s.parts[k[1]].pars[k[2]], s.M[Ix(s, k)][Ix(s, k)]>>
                sq(z) == <<z[1], z[2] * z[2]>> IN
            /\ Len(e.lines) = Len(s.parts)
            /\ \A i \in 1..Len(s.parts) : /\ Len(e.lines[i]) = Len(s.parts[i].pars)
                                          /\ \A k \in 1..Len(e.lines[i]) : sq(e.lines[i][k]) = shown(<<i, k>>)
            /\ sq(e.one) = shown(e.a)>> } ELSE {})
  \cup (IF e.op = "cov" /\ s.def /\ e.r = "ok" THEN {
    <<"covariance lookup", e.v = s.M[Ix(s, e.a)][Ix(s, e.b)]>> } ELSE {})
  \cup (IF e.op = "warn" /\ s.def /\ e.r = "ok" THEN {
    <<"correlation warnings", { <<e.pairs[i][1], e.pairs[i][2]>> : i \in 1..Len(e.pairs) } =
        { <<K!Keys(s.parts)[n], K!Keys(s.parts)[m]>> :
            <<n, m>> \in { q \in (1..K!NP(s.parts)) \X (1..K!NP(s.parts)) :
               /\ q[1] < q[2] /\ s.M[q[1]][q[1]] # 0 /\ s.M[q[2]][q[2]] # 0
               /\ AbsI(s.M[q[1]][q[2]]) * 10 > e.thr * e.sd[q[1]] * e.sd[q[2]] } }>> } ELSE {}))
After(tr, s, e) == IF e.op \in {"fitcov", "roundtrip"} THEN s ELSE Post(s, e)
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
