-------------------------- MODULE SamplingTrace --------------------------
(* Judges recorded resamplings, PDF extractions and PDF fits.               *)
EXTENDS TraceBatch
G == INSTANCE Sampling WITH MaxFree <- 1, MaxCap <- 1, cap <- 0, free <- 0, grid <- 0, points <- 0, phase <- 0
X == INSTANCE Extraction WITH MaxN <- 1, MaxY <- 1, MaxRes <- 1, NInit <- 0, NNew <- 0,
                              w <- 0, cl <- 0, mods <- 0, ip <- 0, fresh <- 0, phase <- 0, out <- 0
SetOf(q) == { q[i] : i \in 1..Len(q) }
Start(tr) == [seen |-> {}]
Near(a, b, tol) == G!Abs(a - b) <= tol

(* resampling on numbers which are exact *)
ResampleBad(tr, e) ==
  LET g == G!Grid(tr.x, tr.lo, tr.hi, e.dr)
      s2 == G!Scale2(tr.nyquist, tr.scale, tr.qdr, e.dr)
  IN IF ~e.ok THEN {"resampling succeeds"} ELSE
     IF e.r # g THEN {"grid over the overlap of data and range"} ELSE
     Failing({ <<"values interpolated within the band", \A k \in 1..Len(g) : Near(e.y[k], G!Resampled(tr.x, tr.y, g[k]), 40 + 12 * Len(tr.x))>>,
               <<"uncertainties of positions interpolated", IF tr.hasdx THEN \A k \in 1..Len(g) : Near(e.re[k], 125 * G!Lin8(tr.x, tr.dx, g[k]), 2) ELSE \A k \in 1..Len(e.re) : e.re[k] = 0>>,
               <<"uncertainties interpolated and scaled",
                 \A k \in 1..Len(g) : LET v == (25 * G!Lin8(tr.x, tr.dy, g[k])) \div 2
                                      IN Near((e.ye[k] * e.ye[k]) * s2[2], (v * v) * s2[1], (4 * G!Max(v, e.ye[k]) + 10) * (s2[1] + s2[2]))>>,
               <<"inputs unchanged", e.changed = <<>> >> })

(* extractions and fits; positions and spacings in millionths *)
Dn(tr) == tr.qstep
WorkSpacing(tr) == (Dn(tr) * 100) \div tr.ss100
Supersampled(tr) == tr.qpos /\ tr.finer
Nyq(tr) == tr.qpos /\ tr.nyquist
Even(r, step, tol) == \A k \in 1..(Len(r) - 1) : Near(r[k + 1] - r[k], step, tol)
Spans(tr, r, step) == /\ Near(r[1], tr.first, 3) /\ r[Len(r)] <= tr.last + 3 /\ r[Len(r)] + step >= tr.last - 3
SpanOfWork(tr) == (* span of the grid of the first phase *)
  IF Supersampled(tr) THEN LET n == (tr.last - tr.first) \div WorkSpacing(tr) IN n * WorkSpacing(tr) ELSE tr.points[Len(tr.points)] - tr.points[1]
(* free parameters before a first peak was estimated for a model left empty *)
Settled(e) == IF Len(e.peaks) = 1 /\ e.peaks[1].rem /\ \A i \in 1..Len(e.peaks[1].free) : e.peaks[1].free[i]
              THEN e.nfree - Len(e.peaks[1].free) ELSE e.nfree
GridOK(tr, e) ==
  LET step == IF Len(e.r) > 1 THEN (e.r[Len(e.r)] - e.r[1]) \div (Len(e.r) - 1) ELSE Dn(tr)
  IN IF e.op = "fit" THEN (IF Nyq(tr) THEN Spans(tr, e.r, Dn(tr)) /\ Even(e.r, Dn(tr), 3) ELSE e.r = tr.points)
     ELSE IF ~tr.qpos THEN e.r = tr.points
     ELSE IF ~tr.nyquist THEN (IF Supersampled(tr) THEN Spans(tr, e.r, WorkSpacing(tr)) /\ Even(e.r, WorkSpacing(tr), 4) ELSE e.r = tr.points)
     ELSE /\ Even(e.r, step, 4)
          /\ Spans(tr, e.r, step)
          /\ \/ Len(e.r) = 1
             \/ Near(step, Dn(tr), 3)
             \/ /\ step < Dn(tr)  (* only for want of points *)
                /\ Len(e.r) > Settled(e)
                /\ e.atmost >= Settled(e)
                /\ e.atmost * Dn(tr) >= e.worklen - 10 * e.atmost
                /\ Near(e.atmost * step, e.worklen - e.worklen \div 10000, 4 * e.atmost + 40)
KeyOf(p) == [X!Key(p) EXCEPT !.o = p.base]
CountK(ps, k) == Cardinality({ i \in 1..Len(ps) : KeyOf(ps[i]) = k })
OwnerOK(tr, p) ==
  IF ~tr.qpos THEN p.o \in SetOf(tr.pf) \cup X!Owners(tr.ip)
  ELSE IF p.static THEN p.o \in X!Owners(tr.ip)
  ELSE p.ripple /\ (p.o \in X!Owners(tr.ip) \/ (p.q = tr.q /\ p.base \in SetOf(tr.pf) \cup { tr.ip[i].base : i \in 1..Len(tr.ip) }))
Result(tr, s, e) ==
  IF ~e.ok THEN {"succeeds"} ELSE
  Failing({ <<"inputs unchanged", e.changed = <<>> >>,
            <<"result on the grid asked for", GridOK(tr, e)>>,
            <<"result holds the data sampled there, with its uncertainties", e.data>>,
            <<"result says how it came about", e.type = e.op>>,
            <<"peaks of the result are in order", X!Ordered(e.peaks)>>,
            <<"peaks have termination effects exactly as asked",
              IF e.op = "fit" THEN X!NoneAdded(tr.ip, e.peaks) ELSE \A i \in 1..Len(e.peaks) : OwnerOK(tr, e.peaks[i])>>,
            <<"initial peaks not removable are kept, with what is fixed",
              \A i \in 1..Len(tr.ip) : ~tr.ip[i].rem => CountK(e.peaks, KeyOf(tr.ip[i])) = CountK(tr.ip, KeyOf(tr.ip[i]))>>,
            <<"fixed baseline parameters stay", e.baseline>>,
            <<"covariance describes the reported parts", e.cov>>,
            <<"same settings, same result", \A m \in s.seen : (m.op = e.op /\ m.cfg = e.cfg) => m.res = e.res>> })
Bad(tr, s, e) == IF e.op = "resample" THEN ResampleBad(tr, e) ELSE IF e.op \in {"extract", "fit"} THEN Result(tr, s, e) ELSE {"unknown event"}
After(tr, s, e) == IF e.op = "resample" THEN s ELSE [seen |-> s.seen \cup {[op |-> e.op, cfg |-> e.cfg, res |-> e.res]}]
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
===========================================================================
