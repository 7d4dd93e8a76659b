---------------------------- MODULE SettingsTrace ----------------------------
EXTENDS TraceBatch
G == INSTANCE Settings WITH Steps <- 0, dat <- 0, s <- 0, ex <- 0, n <- 0
AbsI(v) == IF v < 0 THEN -v ELSE v
ToSet2(q) == { q[i] : i \in 1..Len(q) }
Start(tr) == [d |-> [x |-> <<>>], s |-> G!Unset]
Good(d, kw) == G!Allowed(d, kw)
Post(st0, e) ==
  CASE e.op = "data" -> [d |-> e.d, s |-> IF e.fresh THEN G!Unset ELSE st0.s]
    [] e.op = "clear" -> [d |-> [x |-> <<>>], s |-> G!Unset]
    [] e.op = "clearcalc" -> st0
    [] e.op = "set" -> IF Good(st0.d, e.kw) THEN [d |-> st0.d, s |-> G!Set(st0.d, st0.s, e.kw)] ELSE st0
    [] e.op = "default" -> [d |-> st0.d, s |-> G!Default(st0.d, st0.s, ToSet2(e.a))]
    [] e.op = "slice" -> st0
Near(a, b) == AbsI(a - b) <= 1
(* pi/qmax of a qmax known to the nearest thousandth *)
NearRes(d, c, p) == Near(c, p.cres) \/ (d.x # <<>> /\ d.pdf /\ p.qmax > 0 /\ p.qmax < 30000 /\ p.cres = G!DefCres(d, p.qmax) /\ c < 60000
                                         /\ AbsI(c * p.qmax - G!PiU) <= (c + p.qmax) \div 2 + 1)
SameSeq(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Near(p[i], q[i])
Bad(tr, st0, e) ==
  IF e.op = "slice" THEN
    Failing({ <<"the range covers exactly the points within it, ends included",
                { i \in 1..Len(st0.d.x) : e.lo <= i /\ i <= e.hi } = G!InRange(st0.d, st0.s.rng)>> })
  ELSE LET p == Post(st0, e).s
           refused == e.op = "set" /\ ~Good(st0.d, e.kw)
       IN Failing(
         { <<"outcome of " \o e.op, e.r = IF refused THEN "refused" ELSE "ok">>,
           <<"the data stay as they are", e.data>>,
           <<"given values are not modified", e.given>>,
           <<"clearing the calculation or settings drops the result", e.op \in {"clear", "clearcalc"} => e.nores>> }
         \cup (IF ~refused THEN {} ELSE {
           <<"a refused call leaves the settings it does not name alone",
             \A f \in DOMAIN st0.s : f \in { G!Field(e.kw[i].k) : i \in 1..Len(e.kw) } \/ st0.s[f] = e.s[f]>> })
         \cup (IF refused \/ e.r # "ok" THEN {} ELSE {
           <<"qmax after " \o e.op, Near(e.s.qmax, p.qmax)>>,
           <<"supersample after " \o e.op, Near(e.s.super, p.super)>>,
           <<"nyquist after " \o e.op, e.s.nyq = p.nyq>>,
           <<"scale after " \o e.op, e.s.scale = p.scale>>,
           <<"resolution after " \o e.op, NearRes(Post(st0, e).d, e.s.cres, p)>>,
           <<"uncertainties after " \o e.op, SameSeq(e.s.eff, p.eff)>>,
           <<"range after " \o e.op, e.s.rng = p.rng>>,
           <<"peak functions after " \o e.op, e.s.pf = p.pf>>,
           <<"baseline after " \o e.op, e.s.bl = p.bl>>,
           <<"quality measure after " \o e.op, e.s.em = p.em>>,
           <<"initial peaks after " \o e.op, e.s.ip = p.ip>> }))
(* after a refusal other settings of the same call may or may not have been made *)
After(tr, st0, e) == [d |-> Post(st0, e).d, s |-> e.s]
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
