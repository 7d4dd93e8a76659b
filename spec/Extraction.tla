---------------------------- MODULE Extraction ----------------------------
(* Peak extraction: the window of the data it works on, the growth of      *)
(* regions with one model each, recursion into residuals, and what the     *)
(* result keeps of the initial peaks.                                      *)
(*   w   == [x, y, res]  the points of the window (see Clusters)           *)
(*   cl  == the regions, as <<first, last>> point numbers                  *)
(*   mods == one model (set of peaks) for each region                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
K == INSTANCE Clusters WITH MaxN <- 1, MaxY <- 1, MaxGap <- 1, MaxRes <- 1, d <- 0, cl <- 0, last <- 0

(* points of x inside the range, ends included; without a limit: all *)
Window(x, lo, hi) == { i \in 1..Len(x) : lo <= x[i] /\ x[i] <= hi }

(* A step of the growth: one point is put, then the regions which touch become one.  *)
(* .at = the region (before joining) which took the point, .run = the regions joined *)
Joined(cl) ==
  IF K!Runs(cl) = {} THEN cl
  ELSE LET r == CHOOSE r \in K!Runs(cl) : TRUE IN K!Merge(cl, <<[i \in 1..(r[2] - r[1] + 1) |-> r[1] + i - 1]>>)
Grow(w, cl) == { [cl |-> Joined(s.cl), put |-> s] : s \in K!Steps(w, cl) }
(* the regions of after which the step from cl did not work on *)
Untouched(after, put) == { k \in 1..Len(after) : ~(after[k][1] <= put.p /\ put.p <= after[k][2]) }
(* where hidden peaks may be searched for in a step: next to the end of the data it  *)
(* reached, or across a border at which it joined regions                            *)
Searchable(w, put, lo, hi) ==
  \/ put.p \in {1, K!N(w)} /\ lo <= put.p /\ put.p <= hi
  \/ \E r \in K!Runs(put.cl) : \E j \in r[1]..r[2] - 1 : lo <= put.cl[j][2] /\ put.cl[j + 1][1] <= hi

(* what must not be lost: initial peaks which are not removable. A peak is a record  *)
(* with o: function, free: flags, rem, static, fixed: tokens of its fixed parameters *)
Key(p) == [o |-> p.o, free |-> p.free, rem |-> p.rem, static |-> p.static, fixed |-> p.fixed]
Count(ps, k) == Cardinality({ i \in 1..Len(ps) : Key(ps[i]) = k })
Needed(ps) == SelectSeq(ps, LAMBDA p : ~p.rem)
KeepsNeeded(ip, out) == \A i \in 1..Len(ip) : ~ip[i].rem => Count(out, Key(ip[i])) = Count(ip, Key(ip[i]))
NoneAdded(ip, out) == \A i \in 1..Len(out) : Count(out, Key(out[i])) <= Count(ip, Key(out[i]))
Owners(ps) == { ps[i].o : i \in 1..Len(ps) }
Ordered(ps) == \A i \in 1..(Len(ps) - 1) : ps[i].pos <= ps[i + 1].pos

(* --------------------------- small closed world --------------------------- *)
CONSTANTS MaxN, MaxY, MaxRes, NInit, NNew
VARIABLES w, cl, mods, ip, fresh, phase, out
vars == <<w, cl, mods, ip, fresh, phase, out>>

Full == 1..MaxN
Windows == { Window([i \in Full |-> 4 * i], lo, hi) : lo \in {2, 3, 4, 5, 7, 8, 9}, hi \in { 4 * MaxN + j : j \in {-5, -4, -3, -1, 0, 1, 5} } }
IP == 1..NInit
Init == /\ \E win \in Windows \ {{}} : \E y \in [1..Cardinality(win) -> 0..MaxY], r \in 0..MaxRes :
             w = [x |-> [i \in 1..Cardinality(win) |-> i], y |-> y, res |-> r]
        /\ ip \in [IP -> BOOLEAN] (* removable? *)
        /\ cl \in K!Starts(w) /\ mods = <<{}>> /\ fresh = NInit /\ phase = "grow" /\ out = {}
(* the model of a region worked on: peaks may come and go *)
Reworked(m) == SUBSET m \cup (IF fresh < NInit + NNew THEN { m \cup {fresh + 1} } ELSE {})
Step == /\ phase = "grow" /\ K!Open(w, cl) # {}
        /\ \E g \in Grow(w, cl) :
             LET put == g.put.cl
                 k == g.put.k
                 ms == IF Len(put) > Len(mods) THEN InsertAt(mods, k, {}) ELSE mods
                 runs == K!Runs(put)
                 run == IF runs = {} THEN <<k, k>> ELSE CHOOSE r \in runs : TRUE
                 whole == UNION { ms[i] : i \in run[1]..run[2] }
             IN \E m \in Reworked(whole) :
                  /\ cl' = g.cl
                  /\ mods' = SubSeq(ms, 1, run[1] - 1) \o <<m>> \o SubSeq(ms, run[2] + 1, Len(ms))
                  /\ fresh' = IF m \subseteq whole THEN fresh ELSE fresh + 1
        /\ UNCHANGED <<w, ip, phase, out>>
Finish == /\ phase = "grow" /\ K!Open(w, cl) = {}
          /\ \E gone \in SUBSET (mods[1] \cup { i \in IP : ip[i] }) : out' = (mods[1] \cup IP) \ gone
          /\ phase' = "done" /\ UNCHANGED <<w, cl, mods, ip, fresh>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

WindowContiguous == \A win \in Windows : \A i, j \in win : \A m \in i..j : m \in win
OneToOne == K!WellFormed(w, cl) /\ Len(mods) = Len(cl)
NothingTouches == K!Runs(cl) = {}
OnePeakOneRegion == \A i, j \in 1..Len(mods) : i # j => mods[i] \cap mods[j] = {}
JoinsAtMostThree == phase = "grow" => \A s \in K!Steps(w, cl) :
   Cardinality(K!Runs(s.cl)) <= 1 /\ \A r \in K!Runs(s.cl) : r[2] - r[1] <= 2 /\ r[1] <= s.k /\ s.k <= r[2]
(* one nested search or another is possible exactly where regions meet or data end   *)
SearchesSomewhere == phase = "grow" => \A s \in K!Steps(w, cl) :
   (\E lo, hi \in 1..K!N(w) : lo <= hi /\ Searchable(w, s, lo, hi)) <=> (s.p \in {1, K!N(w)} \/ K!Runs(s.cl) # {})
EndsWhole == K!Open(w, cl) = {} => cl = <<<<1, K!N(w)>>>>
KeepsRequired == phase = "done" => { i \in IP : ~ip[i] } \subseteq out
OthersStay == [][Step => \A k \in 1..Len(cl) : \E j \in 1..Len(cl') :
   IF cl'[j] = cl[k] THEN mods'[j] = mods[k] ELSE cl'[j][1] <= cl[k][1] /\ cl[k][2] <= cl'[j][2]]_vars
Ends == <>(phase = "done")
=============================================================================
