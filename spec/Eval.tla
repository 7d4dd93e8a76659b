-------------------------------- MODULE Eval --------------------------------
(* Evaluation of parts and models with exact integer arithmetic.            *)
(*  part == [w, pars, free]:  value(x) = w * sum_k pars[k] * x^(k-1)         *)
(*  xs   == evaluation points;  rng == positions in xs that are evaluated    *)
(*  err  == uncertainties (1, 2 or 4), residuals are given times 4           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
RECURSIVE Poly(_, _, _)
Poly(p, x, k) == IF k = 0 THEN 0 ELSE p[k] * Pow(x, k - 1) + Poly(p, x, k - 1)
PVal(part, x) == part.w * Poly(part.pars, x, Len(part.pars))
PDer(part, x, k) == part.w * Pow(x, k - 1)

Value(part, xs, rng) == [i \in 1..Len(xs) |-> IF i \in rng THEN PVal(part, xs[i]) ELSE 0]
NoCol == [c |-> "none", v |-> <<>>]
Jac(part, xs, rng) ==
  [k \in 1..Len(part.pars) |->
     IF part.free[k] THEN [c |-> "col", v |-> [i \in 1..Len(xs) |-> IF i \in rng THEN PDer(part, xs[i], k) ELSE 0]]
     ELSE NoCol]
RECURSIVE SumTo(_, _, _)
SumTo(m, x, k) == IF k = 0 THEN 0 ELSE PVal(m[k], x) + SumTo(m, x, k - 1)
MVal(m, x) == SumTo(m, x, Len(m))
MValue(m, xs, rng) == [i \in 1..Len(xs) |-> IF i \in rng THEN MVal(m, xs[i]) ELSE 0]
Sel(rng, n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : i \in rng)
Resid(m, xs, ys, err, rng) ==
  LET s == Sel(rng, Len(xs)) IN
  [j \in 1..Len(s) |-> (4 * (ys[s[j]] - MVal(m, xs[s[j]]))) \div err[s[j]]]
FreeCols(m) == (* <<part, parameter>> of the columns, in packing order *)
  FlattenSeq([i \in 1..Len(m) |->
     LET s == SelectSeq([k \in 1..Len(m[i].pars) |-> k], LAMBDA k : m[i].free[k])
     IN [j \in 1..Len(s) |-> <<i, s[j]>>]])
RJac(m, xs, err, rng) ==
  LET s == Sel(rng, Len(xs))
      c == FreeCols(m) IN
  [f \in 1..Len(c) |-> [j \in 1..Len(s) |-> (-4 * PDer(m[c[f][1]], xs[s[j]], c[f][2])) \div err[s[j]]]]

(* ---- small model: linearity laws the evaluation must obey ---- *)
CONSTANTS V, X
VARIABLES m, xs, rng
vars == <<m, xs, rng>>
PartsOf == { [w |-> w, pars |-> <<a, b>>, free |-> <<f, g>>] : w \in {1, 2}, a \in V, b \in V, f \in BOOLEAN, g \in BOOLEAN }
Init == m = <<>> /\ xs \in { <<a, b, c>> : a \in X, b \in X, c \in X } /\ rng \in SUBSET (1..3)
Next == Len(m) < 2 /\ \E p \in PartsOf : m' = Append(m, p) /\ UNCHANGED <<xs, rng>>
Err == <<1, 2, 4>>
Split == \A i \in 1..3 : MValue(m, xs, 1..3)[i] = MValue(m, xs, rng)[i] + MValue(m, xs, (1..3) \ rng)[i]
(* changing free parameter f by one changes the residual by column f of the Jacobian *)
Bump(i, k) == [m EXCEPT ![i].pars[k] = @ + 1]
JacIsDifference ==
  \A f \in 1..Len(FreeCols(m)) : LET c == FreeCols(m)[f] IN
    \A j \in 1..Len(Sel(rng, 3)) :
      Resid(Bump(c[1], c[2]), xs, <<0, 0, 0>>, Err, rng)[j] - Resid(m, xs, <<0, 0, 0>>, Err, rng)[j]
        = RJac(m, xs, Err, rng)[f][j]
Spec == Init /\ [][Next]_vars
=============================================================================
