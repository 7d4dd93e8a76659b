----------------------------- MODULE FollowTrace -----------------------------
(* One problem, worked on as given (tr.exact: numbers as mantissa and exponent;   *)
(* tr.units: to 24 bits; tr.fixed: in fixed point), and then told otherwise, each event one telling.    *)
(* A run: ok, fits (points, parameters before and after), parts of the result,    *)
(* its quality and how many points it has.                                        *)
EXTENDS TraceBatch
F == INSTANCE Follow WITH N <- 1, MaxY <- 1, Groups <- 0, d <- 0, g <- 0, h <- 0, seen <- 0, done <- 0
Start(tr) == 0
Same(r, q, Eq(_, _, _)) ==
  LET OnePart(p, o) == /\ p.kind = o.kind /\ p.deg = o.deg /\ p.free = o.free /\ p.rem = o.rem /\ Len(p.par) = Len(o.par)
                       /\ \A i \in 1..Len(p.par) : Eq(p, o, i)
      Parts(P, O) == Len(P) = Len(O) /\ \A k \in 1..Len(P) : OnePart(P[k], O[k])
      n == IF Len(r.fits) < Len(q.fits) THEN Len(r.fits) ELSE Len(q.fits)
  IN { <<"ends the same way", r.ok = q.ok>>,
       <<"the same regions and models are fit, in the same order", Len(r.fits) = Len(q.fits) /\ \A k \in 1..n : r.fits[k].n = q.fits[k].n /\ Len(r.fits[k].start) = Len(q.fits[k].start)>>,
       <<"fits start from the same parameters", \A k \in 1..n : Len(r.fits[k].start) = Len(q.fits[k].start) => Parts(r.fits[k].start, q.fits[k].start)>>,
       <<"the same number of points", r.pts = q.pts>>,
       <<"the same peaks and baseline are found", Parts(r.parts, q.parts)>> }
Units(tr, e) == LET Eq(p, o, i) == F!Told(p.par[i], o.par[i], e.la, e.lb, F!Dim(p.kind, p.deg, i))
                IN Same(tr.units, e.run, Eq) \cup
                   { <<"the quality has no units", F!Told(tr.units.q, e.run.q, e.la, e.lb, F!Pure)>>,
                     <<"variances have the units of their parameters, twice",
                       /\ Len(tr.units.cov) = Len(e.run.cov)
                       /\ \A k \in 1..Len(tr.units.cov) : LET v == tr.units.cov[k] IN
                            \A i \in 1..Len(v.par) : LET dim == F!Dim(v.kind, v.deg, i) IN F!Told(v.par[i], e.run.cov[k].par[i], e.la, e.lb, <<2 * dim[1], 2 * dim[2]>>)>> }
Moved(tr, e) == LET Eq(p, o, i) == F!Moved(p.par[i], o.par[i], F!Shift(p.kind, p.deg, i, IF p.kind = "p" /\ p.deg = 1 THEN p.par[1] ELSE 0, e.s, e.c))
                IN Same(tr.fixed, e.run, Eq) \cup { <<"the quality is the same", F!Moved(tr.fixed.q, e.run.q, 0)>> }
Exact(tr, e) == LET Eq(p, o, i) == p.par[i] = o.par[i]
                IN Same(tr.exact, e.run, Eq) \cup { <<"the quality is the same", tr.exact.q = e.run.q>> }
Bad(tr, s, e) == Failing(CASE e.op = "units" -> Units(tr, e) [] e.op = "moved" -> Moved(tr, e) [] e.op = "exact" -> Exact(tr, e))
After(tr, s, e) == s
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
