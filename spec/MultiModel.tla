------------------------------ MODULE MultiModel ------------------------------
(* Several models of the same data, grouped into classes of equivalent ones    *)
(* and ranked by the evidence for them at several assumed uncertainties.       *)
(* A model is [peaks: sequence of [np, sq], bl: [np, sq], k, kbl, chi]:        *)
(*   np: number of parameters, sq: sum of the squared values on the grid,      *)
(*   k: free parameters of the peaks, kbl: of the baseline, chi: sum of        *)
(*   squared residuals (unit uncertainty).                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
LOCAL Q == INSTANCE Quality WITH MaxN <- 0, MaxK <- 0, MaxChi <- 0, crit <- 0, n <- 0, k <- 0, chi <- 0

AbsI(v) == IF v < 0 THEN -v ELSE v
(* squared sums agree to within the fraction num/den of either *)
Close(a, b, num, den) == AbsI(a - b) * den <= num * a /\ AbsI(a - b) * den <= num * b
Alike(m, ex, num, den) ==
  /\ m.bl.np = ex.bl.np
  /\ Len(m.peaks) = Len(ex.peaks)
  /\ \A i \in 1..Len(m.peaks) : m.peaks[i].np = ex.peaks[i].np /\ Close(m.peaks[i].sq, ex.peaks[i].sq, num, den)
  /\ Close(m.bl.sq, ex.bl.sq, num, den)
(* classes: sequence of sequences of model numbers; each model joins the first *)
(* class whose first member it is alike, or founds a new one                   *)
RECURSIVE ClassesTo(_, _, _, _)
ClassesTo(ms, num, den, i) ==
  IF i = 0 THEN <<>>
  ELSE LET c == ClassesTo(ms, num, den, i - 1)
           fit == { j \in 1..Len(c) : Alike(ms[i], ms[c[j][1]], num, den) }
       IN IF fit = {} THEN Append(c, <<i>>)
          ELSE LET j == CHOOSE x \in fit : \A y \in fit : x <= y IN [c EXCEPT ![j] = Append(@, i)]
Classes(ms, num, den) == ClassesTo(ms, num, den, Len(ms))
ClassOf(c, i) == CHOOSE j \in 1..Len(c) : \E x \in 1..Len(c[j]) : c[j][x] = i

(* 16 * statistic * Den, for uncertainty 4 / sqrt(g16) *)
Stat16(crit, m, g16, n) == m.chi * g16 * Q!PenDen(crit, m.k, n) + 16 * Q!PenNum(crit, m.k, n)
Den(crit, m, n) == Q!PenDen(crit, m.k, n)

(* p: a permutation of S, statistics f (lower is better) from worst to best *)
Ranks(p, S, f) == /\ Len(p) = Cardinality(S) /\ { p[i] : i \in 1..Len(p) } = S
                  /\ \A i \in 1..Len(p) - 1 : f[p[i]] >= f[p[i + 1]] - 1
NthBest(p, n) == p[Len(p) - n]

(* ------------------------- small closed world ----------------------------- *)
CONSTANTS Sqs, MaxModels, Chis
VARIABLES ms, cls
mvars == <<ms, cls>>
Model == { [peaks |-> p, bl |-> [np |-> 0, sq |-> 0], k |-> Len(p), kbl |-> 0, chi |-> c] :
             p \in UNION { [1..l -> [np : {1}, sq : Sqs]] : l \in 0..2 }, c \in Chis }
Init == ms = <<>> /\ cls = <<>>
Add == Len(ms) < MaxModels /\ \E m \in Model : ms' = Append(ms, m) /\ cls' = Classes(ms', 1, 4)
Next == Add
Spec == Init /\ [][Next]_mvars
(* every model is in exactly one class *)
Partition == \A i \in 1..Len(ms) : Cardinality({ j \in 1..Len(cls) : \E x \in 1..Len(cls[j]) : cls[j][x] = i }) = 1
Exemplar == \A j \in 1..Len(cls) : \A x \in 1..Len(cls[j]) : Alike(ms[cls[j][x]], ms[cls[j][1]], 1, 4)
Distinct == \A j, l \in 1..Len(cls) : j < l => ~Alike(ms[cls[l][1]], ms[cls[j][1]], 1, 4)
InOrder == \A j \in 1..Len(cls) : \A x \in 1..Len(cls[j]) - 1 : cls[j][x] < cls[j][x + 1]
(* adding a model never moves an earlier one *)
Stable == [][\A i \in 1..Len(ms) : ClassOf(cls', i) = ClassOf(cls, i)]_mvars
(* the same model is the better one at every uncertainty if it needs no more parameters *)
Dominates == \A i, j \in 1..Len(ms) : (ms[i].chi <= ms[j].chi /\ ms[i].k <= ms[j].k) =>
               \A g \in {1, 4, 16, 64} : Stat16("AIC", ms[i], g, 6) <= Stat16("AIC", ms[j], g, 6)
=============================================================================
