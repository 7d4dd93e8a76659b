----------------------------- MODULE PlotsTrace -----------------------------
(* Each event holds what was there (models, results, probabilities) and what   *)
(* the figure showed.  No state between events: a figure is made of what is    *)
(* there at the time.                                                          *)
EXTENDS TraceBatch
P == INSTANCE Plots WITH NumResults <- 0, recorded <- 0, current <- 0, copy <- 0, frames <- 0, todo <- 0, before <- 0
Start(tr) == 0
Model(e, m, ls) == IF e.joined THEN P!SameLines(ls, P!Joined(m)) ELSE P!SameLines(ls, P!Individual(m))
Ok(e) == { <<"it can be shown", e.r = "ok">>, <<"showing changes nothing", e.kept>> }
R(e, clauses) == Failing(Ok(e)) \cup (IF e.r = "ok" THEN Failing(clauses) ELSE {})
(* ----- series ----- *)
SeriesPoints(res, k, lo, hi) ==
  UNION { { <<res[i].pos[j], P!Mul(res[i].e, k)>> : j \in { j \in 1..Len(res[i].pos) : lo <= res[i].pos[j] /\ res[i].pos[j] <= hi } } : i \in 1..Len(res) }
(* ----- probability animations: frame d shows uncertainty dgs[d] ----- *)
ProbFrame(e, f, d) ==
  { <<"all models' probabilities over their uncertainties", Len(f.curve.x) = Len(e.es) /\ P!SameLine(f.curve, e.es, e.probs[d])>>,
    <<"the uncertainty shown is marked", P!Near(f.mark, e.dgs[d])>>,
    <<"the most probable model is marked and shown",
       \E i \in 1..Len(e.es) : P!Best(e.probs[d], i) /\ P!Near(f.dot[1], e.es[i]) /\ P!Near(f.dot[2], e.probs[d][i])
                               /\ P!SameLines(f.lower, P!Individual(e.models[i]))>> }
ClassFrame(e, f, d) ==
  { <<"all classes' probabilities in order", P!SameLine(f.curve, [c \in 1..Len(e.classes) |-> (c - 1) * 1000], e.probs[d])>>,
    <<"the uncertainty shown is marked", P!Near(f.mark, e.dgs[d])>>,
    <<"the most probable class is marked and a model of it is shown",
       \E c \in 1..Len(e.classes) : P!Best(e.probs[d], c) /\ P!Near(f.dot[1], (c - 1) * 1000) /\ P!Near(f.dot[2], e.probs[d][c])
          /\ \E i \in P!SetOf(e.classes[c]) :
               /\ P!Contains(f.lower, P!Individual(e.models[i]))
               /\ \E l \in P!SetOf(f.lower) : LET m == e.models[i] q == P!Resid(m) IN
                    /\ P!NearSeq(l.x, m.x)
                    /\ \A j, k \in 1..Len(l.y) : -4 <= (l.y[j] - l.y[k]) - (q[j] - q[k]) /\ (l.y[j] - l.y[k]) - (q[j] - q[k]) <= 4
                    /\ \A j \in 1..Len(l.y), g \in P!SetOf(P!Individual(m)), k \in 1..Len(m.x) : l.y[j] <= g.y[k] + 4 >> }
(* ----- surface of class probabilities ----- *)
Passing(e) == SelectSeq(e.asked, LAMBDA c : LET p == P!Most([d \in 1..Len(e.use) |-> e.probs[e.use[d]][c]]) IN e.lo <= p /\ p <= e.hi)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Surface(e) ==
  LET show == Passing(e) n == Len(show)
      X(d) == P!Mul(e.dgs[d], e.scale) IN
  { <<"exactly the classes in the probability range, in order", e.labels = show>>,
    <<"one surface per class", Len(e.faces) = n>>,
    <<"every probability of a shown class over its uncertainty", Len(e.faces) = n =>
       \A k \in 1..n : P!PointsNear({ <<v[1], v[3]>> : v \in P!SetOf(e.faces[k]) },
           { <<X(d), e.probs[d][show[k]]>> : d \in P!SetOf(e.use) } \cup { <<X(e.use[1]), 0>>, <<X(e.use[Len(e.use)]), 0>> })>>,
    <<"each at its own place", Len(e.faces) = n => \A k \in 1..n : \A v \in P!SetOf(e.faces[k]) : P!Near(v[2], (k - 1) * 1000)>>,
    <<"axis covers the uncertainties", P!Near(e.xlim[1], X(e.use[1])) /\ P!Near(e.xlim[2], X(e.use[Len(e.use)]))>>,
    <<"as many highlights as asked", Len(e.hl) = n * Len(e.highlight)>>,
    <<"highlights at their uncertainty up to the probability", \A k \in 1..n, h \in P!SetOf(e.highlight) :
       \E l \in P!SetOf(e.hl) : P!Near(l[1], X(h)) /\ P!Near(l[2], (k - 1) * 1000) /\ P!Near(l[3], e.probs[h][show[k]])>>,
    <<"equal size, equal colour", Len(e.colours) = n => \A j, k \in 1..n :
       (e.colours[j] = e.colours[k]) <=> (Len(e.classes[show[j]]) = Len(e.classes[show[k]]))>>,
    <<"the title counts", (e.title = <<>>) \/ (e.title = <<n, Len(e.classes), Sum([k \in 1..n |-> Len(e.classes[show[k]])]), Len(e.models)>>)>> }
(* ----- given distances: one per line after leading comments, until a line is none ----- *)
RECURSIVE Upto(_), Skip(_, _)
Skip(ls, k) == IF ls # <<>> /\ Head(ls).kind = k THEN Skip(Tail(ls), k) ELSE ls
Upto(ls) == IF ls = <<>> \/ Head(ls).kind # "number" THEN <<>> ELSE <<Head(ls).v>> \o Upto(Tail(ls))
Distances(ls) == Upto(Skip(Skip(ls, "comment"), "blank"))
(* ----- the plotting tool ----- *)
Tool(e) ==
  LET m == e.m K(v) == P!Mul(v, e.scale)
      Show(x, l) == \E j \in 1..Len(l.x) : l.x[j] = x
      ground == e.level IN
  { <<"the data as given", ~e.opt.observed \/ \E l \in P!SetOf(e.lines) :
        \A j \in 1..Len(m.x) : \E k \in 1..Len(l.x) : P!Near(l.x[k], m.x[j]) /\ P!Near(l.y[k], K(m.y[j]))>>,
    <<"the fit", ~e.opt.fit \/ \E l \in P!SetOf(e.lines) :
        l.n > Len(m.x) /\ P!Near(l.x[1], m.x[1]) /\ \A k \in 1..Len(l.x) : P!Near(l.y[k], K(P!Whole(m, l.x[k])))>>,
    <<"each peak between the baseline and its value", ~e.opt.fill \/
        (/\ Len(e.fills) = Len(m.peaks)
         /\ \A i \in 1..Len(m.peaks) : \E f \in P!SetOf(e.fills) :
              \A k \in 1..Len(f) : LET b == K(P!Base(m, f[k][1])) v == K(P!OnePeak(m, i, f[k][1])) IN
                 IF b <= v THEN P!Near(f[k][2], b) /\ P!Near(f[k][3], v) ELSE P!Near(f[k][2], v) /\ P!Near(f[k][3], b))>>,
    <<"no peaks filled unasked", e.opt.fill \/ e.fills = <<>> >>,
    <<"the residual around its own line", ~e.opt.residual \/
        (/\ ground # <<>>
         /\ \E l \in P!SetOf(e.lines) : P!NearSeq(l.x, m.x) /\ \A j \in 1..Len(m.x) : LET d == l.y[j] - ground[1] - K(P!Resid(m)[j]) IN -5 <= d /\ d <= 5)>>,
    <<"no residual unasked", e.opt.residual \/ ground = <<>> >>,
    <<"the residual below everything else", (e.opt.residual /\ e.auto /\ ground # <<>>) =>
        \A j, k \in 1..Len(m.x) : LET top == ground[1] + K(P!Resid(m)[j]) IN
           /\ (e.opt.observed => top <= K(m.y[k]) + 5) /\ (e.opt.fit => top <= K(P!Whole(m, m.x[k])) + 5) /\ e.ylim[1] <= top + 5 /\ top <= e.ylim[2]>>,
    <<"everything inside the limits", e.auto => \A k \in 1..Len(m.x) :
           /\ (e.opt.observed => e.ylim[1] <= K(m.y[k]) + 5 /\ K(m.y[k]) <= e.ylim[2] + 5)
           /\ (e.opt.fit => e.ylim[1] <= K(P!Whole(m, m.x[k])) + 5 /\ K(P!Whole(m, m.x[k])) <= e.ylim[2] + 5)>>,
    <<"the range asked for", P!Near(e.xlim[1], e.xwant[1]) /\ P!Near(e.xlim[2], e.xwant[2])>>,
    <<"found positions", ~e.opt.cmp \/ P!SetOf(e.found) = { m.peaks[i][1] * 1000 : i \in 1..Len(m.peaks) }>>,
    <<"given positions", ~e.opt.cmp \/ P!SetOf(e.given) = P!SetOf(e.ip)>>,
    <<"positions found over the uncertainties", ~e.opt.series \/
        P!PointsNear(P!SetOf(e.dots), SeriesPoints(e.results, e.scale, m.x[1], m.x[Len(m.x)]))>>,
    <<"mean uncertainty shown", e.note = <<>> \/ (Len(e.note) = 1 /\ P!Near(e.note[1], K(e.mean)))>>,
    <<"uncertainty is shown when asked", e.opt.note => e.note # <<>> >> }
Bad(tr, s, e) ==
  CASE e.op = "cluster" -> R(e, { <<"data and every peak on the baseline, or their sum", Model(e, e.m, e.lines)>>,
                                  <<"residual", P!SameLine(e.res, e.m.x, P!Resid(e.m))>> })
    [] e.op = "extraction" -> R(e, { <<"data and every peak on the baseline, or their sum", Model(e, e.m, e.lines)>> })
    [] e.op = "series" -> R(e, { <<"every position at its uncertainty", P!PointsNear(P!SetOf(e.dots), SeriesPoints(e.results, 1000, -1000000, 1000000))>> })
    [] e.op = "result" -> R(e, { <<"the current model", Model(e, e.m, e.lines)>>,
                                 <<"which result of how many, its uncertainty, peaks, quality", P!NearSeq(e.title, e.want)>> })
    [] e.op = "animate" -> R(e, { <<"one frame per result asked for", Len(e.frames) = Len(e.asked)>>,
                                  <<"each frame shows its result", Len(e.frames) = Len(e.asked) =>
                                      \A k \in 1..Len(e.asked) : P!SameLines(e.frames[k], P!Individual(e.models[e.asked[k]]))>>,
                                  <<"the current result is again what it was", e.after = e.before>> })
    [] e.op = "probs" -> R(e, { <<"one frame per further uncertainty", Len(e.frames) = Len(e.dgs) - 1>> } \cup
                              UNION { ProbFrame(e, e.frames[d], d + 1) : d \in 1..Len(e.frames) })
    [] e.op = "classprobs" -> R(e, { <<"one frame per further uncertainty", Len(e.frames) = Len(e.dgs) - 1>> } \cup
                              UNION { ClassFrame(e, e.frames[d], d + 1) : d \in 1..Len(e.frames) })
    [] e.op = "surface" -> R(e, Surface(e))
    [] e.op = "tool" -> R(e, Tool(e))
    [] e.op = "distances" -> Failing({ <<"distances up to the first line which is none", e.r = "ok" /\ e.got = Distances(e.text)>> })
After(tr, s, e) == s
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
