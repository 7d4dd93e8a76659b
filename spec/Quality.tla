------------------------------- MODULE Quality -------------------------------
(* Quality of a model: information criteria and their order.                  *)
(* chi4 is four times chi-square (exact for uncertainties 1/2, 1 and 2).      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

MaxI(a, b) == IF a > b THEN a ELSE b
(* squared residuals over squared uncertainties, times 4; err2[i] = 2 * uncertainty *)
RECURSIVE ChiTo(_, _, _)
ChiTo(res, err2, i) == IF i = 0 THEN 0 ELSE (16 * res[i] * res[i]) \div (err2[i] * err2[i]) + ChiTo(res, err2, i - 1)
Chi4(res, err2) == ChiTo(res, err2, Len(res))

(* free (or all) parameters of the peaks; a peak is its sequence of free flags *)
RECURSIVE Count(_, _, _)
Count(peaks, all, i) == IF i = 0 THEN 0
  ELSE (IF all THEN Len(peaks[i]) ELSE Cardinality({ j \in 1..Len(peaks[i]) : peaks[i][j] })) + Count(peaks, all, i - 1)
K(peaks, all) == Count(peaks, all, Len(peaks))

MinPoints(crit, k) == IF crit = "AIC" THEN 1 ELSE k + 2
Points(crit, k, n) == MaxI(n, MinPoints(crit, k))
(* penalties and statistics are fractions num/den *)
PenDen(crit, k, n) == IF crit = "AIC" THEN 1 ELSE Points(crit, k, n) - k - 1
PenNum(crit, k, n) == IF crit = "AIC" THEN 2 * k ELSE 2 * k * (Points(crit, k, n) - k - 1) + 2 * k * (k + 1)
(* 4 * statistic * den *)
Stat4(crit, chi4, k, n) == chi4 * PenDen(crit, k, n) + 4 * PenNum(crit, k, n)
Defined(k) == k >= 0
(* would k2 more parameters be justified for a model of k parameters with this chi-square? *)
Justified(crit, chi4, k, k2, n) ==
  /\ n >= MinPoints(crit, k + k2)
  /\ LET m == Points(crit, k, n)
         d1 == PenDen(crit, k, m)
         d2 == PenDen(crit, k + k2, m)
     IN 4 * (PenNum(crit, k + k2, m) * d1 - PenNum(crit, k, m) * d2) < chi4 * d1 * d2
(* qualities ordered: a, b are ranks of the statistics *)
Better(higher, a, b) == IF higher THEN a > b ELSE a < b
Cmp(op, higher, a, b) ==
  CASE op = "lt" -> Better(higher, b, a) [] op = "gt" -> Better(higher, a, b)
    [] op = "le" -> ~Better(higher, a, b) [] op = "ge" -> ~Better(higher, b, a)
    [] op = "eq" -> a = b [] op = "ne" -> a # b

(* ------------------------- small closed world ----------------------------- *)
CONSTANTS MaxN, MaxK, MaxChi
VARIABLES crit, n, k, chi
vars == <<crit, n, k, chi>>
Init == crit \in {"AIC", "AICc"} /\ n \in 1..MaxN /\ k \in 0..MaxK /\ chi \in 0..MaxChi
(* the model grows by a parameter, gains a point, or fits worse *)
Next == \/ k < MaxK /\ k' = k + 1 /\ UNCHANGED <<crit, n, chi>>
        \/ n < MaxN /\ n' = n + 1 /\ UNCHANGED <<crit, k, chi>>
        \/ chi < MaxChi /\ chi' = chi + 1 /\ UNCHANGED <<crit, n, k>>
Spec == Init /\ [][Next]_vars
Positive == PenDen(crit, k, n) > 0 /\ PenNum(crit, k, n) >= 0
(* the statistic falls with chi-square and rises with the parameters *)
Monotone == [][ /\ chi' > chi => Stat4(crit, chi', k, n) > Stat4(crit, chi, k, n)
                /\ k' > k => PenNum(crit, k', n) * PenDen(crit, k, n) > PenNum(crit, k, n) * PenDen(crit, k', n)
                /\ n' > n => PenNum(crit, k, n') * PenDen(crit, k, n) <= PenNum(crit, k, n) * PenDen(crit, k, n') ]_vars
(* what is justified for many parameters is justified for fewer *)
JustMono == \A k2 \in 1..MaxK : Justified(crit, chi, k, k2 + 1, n) => Justified(crit, chi, k, k2, n)
JustMeans == \A k2 \in 1..MaxK : Justified(crit, chi, k, k2, n) =>
   (* a perfect fit with k2 more parameters would be of better quality *)
   Stat4(crit, 0, k + k2, Points(crit, k, n)) * PenDen(crit, k, Points(crit, k, n))
     < Stat4(crit, chi, k, Points(crit, k, n)) * PenDen(crit, k + k2, Points(crit, k, n))
=============================================================================
