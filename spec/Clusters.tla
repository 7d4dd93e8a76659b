------------------------------ MODULE Clusters ------------------------------
(* Clustering of a data set: the iteration which grows clusters from the    *)
(* tallest points downwards, the queries on clusters and the merging of     *)
(* adjacent clusters.                                                       *)
(*   d  == [x |-> strictly increasing positions, y |-> values, res |-> .. ] *)
(*   cl == sequence of <<first, last>> point numbers (1..n)                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

Abs(v) == IF v < 0 THEN -v ELSE v
N(d) == Len(d.x)
Covered(cl) == UNION { cl[i][1]..cl[i][2] : i \in 1..Len(cl) }
Open(d, cl) == (1..N(d)) \ Covered(cl)
Tallest(d, S) == { p \in S : \A q \in S : d.y[q] <= d.y[p] }

WellFormed(d, cl) ==
  /\ Len(cl) >= 1
  /\ \A i \in 1..Len(cl) : 1 <= cl[i][1] /\ cl[i][1] <= cl[i][2] /\ cl[i][2] <= N(d)
  /\ \A i \in 1..(Len(cl) - 1) : cl[i][2] < cl[i + 1][1]

(* signed distance of point p from cluster k: negative left of it, 0 inside *)
Dist(d, cl, k, p) ==
  IF p < cl[k][1] THEN d.x[p] - d.x[cl[k][1]]
  ELSE IF p > cl[k][2] THEN d.x[p] - d.x[cl[k][2]] ELSE 0

Nearest(d, cl, p) ==
  CHOOSE k \in 1..Len(cl) :
    \A j \in 1..Len(cl) : \/ Abs(Dist(d, cl, k, p)) < Abs(Dist(d, cl, j, p))
                          \/ Abs(Dist(d, cl, k, p)) = Abs(Dist(d, cl, j, p)) /\ j <= k

(* clusters after handling the open point p, and the cluster it ended in *)
Put(d, cl, p) ==
  LET k == Nearest(d, cl, p)
      v == Dist(d, cl, k, p)
  IN IF Abs(v) <= d.res
     THEN [cl |-> [cl EXCEPT ![k] = IF v < 0 THEN <<p, @[2]>> ELSE <<@[1], p>>], k |-> k, p |-> p]
     ELSE LET at == IF v < 0 THEN k ELSE k + 1
          IN [cl |-> InsertAt(cl, at, <<p, p>>), k |-> at, p |-> p]

Steps(d, cl) == { Put(d, cl, p) : p \in Tallest(d, Open(d, cl)) }
Starts(d) == { <<<<p, p>>>> : p \in Tallest(d, 1..N(d)) }

(* ---- queries ---- *)
Touch(cl, i) == cl[i + 1][1] = cl[i][2] + 1
Runs(cl) == (* maximal runs of at least two touching clusters, as pairs (first, last) *)
  { <<i, j>> \in (1..Len(cl)) \X (1..Len(cl)) :
      /\ i < j
      /\ \A m \in i..(j - 1) : Touch(cl, m)
      /\ i = 1 \/ ~Touch(cl, i - 1)
      /\ j = Len(cl) \/ ~Touch(cl, j) }
Full(d, cl, k) == /\ cl[k][1] = (IF k = 1 THEN 1 ELSE cl[k - 1][2] + 1)
                  /\ cl[k][2] = (IF k = Len(cl) THEN N(d) ELSE cl[k + 1][1] - 1)
(* twice the border coordinates: half way to the next point outside, or the end point *)
Borders(d, cl) ==
  UNION { LET lo == IF c[1] = 1 THEN 1 ELSE c[1] - 1
              hi == IF c[2] = N(d) THEN c[2] ELSE c[2] + 1
          IN { <<d.x[lo] + d.x[c[1]], d.y[lo] + d.y[c[1]]>>, <<d.x[c[2]] + d.x[hi], d.y[c[2]] + d.y[hi]>> }
        : c \in { cl[i] : i \in 1..Len(cl) } }
(* points standing for a coordinate (given in the units of x times 2) *)
PointsAt(d, c2) == { p \in 1..N(d) : \A q \in 1..N(d) : Abs(2 * d.x[p] - c2) <= Abs(2 * d.x[q] - c2) }

(* ---- merging: groups is a sequence of sequences of cluster numbers ---- *)
Flat(groups) == FlattenSeq(groups)
GroupsOK(cl, groups) ==
  /\ Cardinality({ Flat(groups)[i] : i \in 1..Len(Flat(groups)) }) = Len(Flat(groups))
  /\ \A g \in { groups[i] : i \in 1..Len(groups) } :
       \A i \in 1..(Len(g) - 1) : g[i + 1] = g[i] + 1 /\ Touch(cl, g[i])
Merge(cl, groups) ==
  LET dropped == UNION { { g[i] : i \in 2..Len(g) } : g \in { groups[m] : m \in 1..Len(groups) } }
      end(k) == IF \E m \in 1..Len(groups) : groups[m][1] = k
                THEN LET m == CHOOSE m \in 1..Len(groups) : groups[m][1] = k
                     IN groups[m][Len(groups[m])]
                ELSE k
      kept == SelectSeq([k \in 1..Len(cl) |-> k], LAMBDA k : k \notin dropped)
  IN [i \in 1..Len(kept) |-> <<cl[kept[i]][1], cl[end(kept[i])][2]>>]

(* ------------------------- small model, checked exhaustively ------------- *)
CONSTANTS MaxN, MaxY, MaxGap, MaxRes
VARIABLES d, cl, last
vars == <<d, cl, last>>

RECURSIVE Sum(_, _)
Sum(g, i) == IF i = 0 THEN 0 ELSE g[i] + Sum(g, i - 1)
Data == { [x |-> [i \in 1..n |-> Sum(g, i - 1)], y |-> yy, res |-> r] :
            n \in {MaxN}, g \in [1..(MaxN - 1) -> 1..MaxGap], yy \in [1..MaxN -> 0..MaxY], r \in 0..MaxRes }
None == <<0, 0>>
Init == d \in Data /\ cl \in Starts(d) /\ last = None
DoStep == /\ Open(d, cl) # {}
          /\ \E s \in Steps(d, cl) : cl' = s.cl /\ last' = <<s.k, s.p>>
          /\ UNCHANGED d
DoMerge == \E r \in Runs(cl) :
             /\ cl' = Merge(cl, <<[i \in 1..(r[2] - r[1] + 1) |-> r[1] + i - 1]>>)
             /\ UNCHANGED <<d, last>>
DoRestart == Open(d, cl) = {} /\ cl' \in Starts(d) /\ last' = None /\ UNCHANGED d
Next == DoStep \/ DoMerge
NextR == Next \/ DoRestart

TypeOK == WellFormed(d, cl)
(* every step covers its point, keeps what was covered and adds at least one point *)
StepGrows == [][DoStep => /\ Covered(cl) \subseteq Covered(cl') /\ Covered(cl) # Covered(cl')
                          /\ last'[2] \in Covered(cl') /\ last'[2] \notin Covered(cl)
                          /\ cl'[last'[1]][1] <= last'[2] /\ last'[2] <= cl'[last'[1]][2]]_vars
MergeKeeps == [][DoMerge => Covered(cl) = Covered(cl') /\ Len(cl') < Len(cl)]_vars
(* full clusters never change by a step *)
FullStays == [][DoStep => \A k \in 1..Len(cl) : Full(d, cl, k) => \E j \in 1..Len(cl') : cl'[j] = cl[k]]_vars
(* with resolution 0 every point is its own cluster *)
Zero == (d.res = 0 /\ Open(d, cl) = {} /\ \A k \in 1..Len(cl) : cl[k][1] = cl[k][2]) => Len(cl) = N(d)
RunsDisjoint == \A a, b \in Runs(cl) : a # b => a[2] < b[1] \/ b[2] < a[1]
Ends == <>(Open(d, cl) = {})
FairSpec == Init /\ [][Next]_vars /\ WF_vars(DoStep)
Spec == Init /\ [][Next]_vars

Dump == PrintT("@@EDGE " \o ToJson([s |-> [d |-> d, cl |-> cl],
          a |-> IF last' = last THEN "merge" ELSE "step", p |-> [cl |-> cl', last |-> last']]))
=============================================================================
