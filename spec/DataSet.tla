------------------------------- MODULE DataSet -------------------------------
(* A PDF data set: positions, values, uncertainties of both, settings,          *)
(* metadata; text it is read from and written to.  Numbers are whole fractions  *)
(* of one, One of them making one (a multiple of 1000); absent is the empty     *)
(* sequence.                                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT One
NaN == 2000000000
Inf == 1999999999
None == <<>>
Default == [rob |-> <<>>, gob |-> <<>>, dr |-> <<>>, dg |-> <<>>, stype |-> "X", qmax |-> 0, qdamp |-> One \div 1000, qbroad |-> 0,
            spd |-> None, dscale |-> One, rmin |-> None, rmax |-> None, file |-> "", meta |-> <<>>]
Refinable == {"qdamp", "qbroad", "dscale"}

(* --------------------------------- text ---------------------------------- *)
Cell(rows, i, c) == rows[i][c]
Has(rows, i, c) == c <= Len(rows[i])
Pos(cell) == cell.k = "num" /\ cell.v > 0
Fine(rows, c) == \A i \in 1..Len(rows) : Has(rows, i, c) /\ Pos(Cell(rows, i, c))
(* a word where a number is needed *)
Broken(rows) ==
  \/ Len(rows) = 0
  \/ \E i \in 1..Len(rows) : Len(rows[i]) < 2 \/ (\E c \in {1, 2} : Cell(rows, i, c).k = "word")
  \/ \E c \in {3, 4} : \E i \in 1..Len(rows) :
       Has(rows, i, c) /\ Cell(rows, i, c).k = "word" /\ (\A j \in 1..(i - 1) : Has(rows, j, c) /\ Pos(Cell(rows, j, c)))
MayBreak(rows) == Broken(rows) \/ \E c \in {3, 4} : \E i \in 1..Len(rows) : Has(rows, i, c) /\ Cell(rows, i, c).k = "word"
Col(rows, c) == [i \in 1..Len(rows) |-> Cell(rows, i, c).v]
Zeros(n) == [i \in 1..n |-> 0]
Opt(x, d) == IF x = None THEN d ELSE x[1]
(* pairs; a later value of a key wins *)
Pairs(m) == { <<m[i][1], m[i][2]>> : i \in { j \in 1..Len(m) : \A l \in (j + 1)..Len(m) : m[l][1] # m[j][1] } }
MetaOf(h) == (IF h.temp = None THEN <<>> ELSE << <<"temperature", h.temp[1]>> >>)
          \o (IF h.dop = None THEN <<>> ELSE << <<"doping", h.dop[1]>> >>) \o h.meta
FromText(h, rows, file) ==
  [rob |-> Col(rows, 1), gob |-> Col(rows, 2),
   dr |-> IF Fine(rows, 3) THEN Col(rows, 3) ELSE Zeros(Len(rows)),
   dg |-> IF Fine(rows, 4) THEN Col(rows, 4) ELSE Zeros(Len(rows)),
   stype |-> IF h.stype = "" THEN "X" ELSE h.stype, qmax |-> Opt(h.qmax, 0), qdamp |-> Opt(h.qdamp, One \div 1000),
   qbroad |-> Opt(h.qbroad, 0), spd |-> h.spd, dscale |-> Opt(h.dscale, One),
   rmin |-> <<rows[1][1].v>>, rmax |-> <<Last(rows)[1].v>>, file |-> file, meta |-> MetaOf(h)]

(* ----------------------- equality and written precision ------------------- *)
Fields == {"rob", "gob", "dr", "dg", "stype", "qmax", "qdamp", "qbroad", "spd", "dscale", "rmin", "rmax", "file", "meta"}
Agree(d, p, f) == IF f = "meta" THEN Pairs(d.meta) = Pairs(p.meta) ELSE d[f] = p[f]
Abs(v) == IF v < 0 THEN -v ELSE v
(* one unit of the sixth digit *)
Unit(v) == LET a == Abs(v) IN CASE a < 1000000 -> 1 [] a < 10000000 -> 10 [] a < 100000000 -> 100 [] a < 1000000000 -> 1000 [] OTHER -> 10000
Near(v, w, u) == w % u = 0 /\ 2 * Abs(w - v) <= u
Digits6(v, w) == IF v >= Inf THEN w = v ELSE Near(v, w, Unit(v))
AllDigits(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Digits6(a[i], b[i])
Positive(s) == \A i \in 1..Len(s) : s[i] > 0 /\ s[i] < Inf
Errs(a, b) == IF Positive(a) THEN AllDigits(a, b) ELSE b = Zeros(Len(a))
(* p was read from what d was written to *)
ReadsBack(d, p, f) ==
  CASE f \in {"rob", "gob"} -> AllDigits(d[f], p[f])
    [] f \in {"dr", "dg"} -> Errs(d[f], p[f])
    [] f = "stype" -> p.stype = d.stype
    [] f = "qmax" -> Near(d.qmax, p.qmax, One \div 100)
    [] f \in {"qdamp", "qbroad", "dscale"} -> Digits6(d[f], p[f])
    [] f = "spd" -> TRUE  \* not written (kept for reading only)
    [] f = "rmin" -> p.rmin = <<p.rob[1]>>
    [] f = "rmax" -> p.rmax = <<Last(p.rob)>>
    [] f = "file" -> TRUE
    [] f = "meta" -> Pairs(p.meta) = Pairs(d.meta)
CopyOf(d) == d
SetVar(d, v, x) == [d EXCEPT ![v] = x]
PutMeta(d, k, x) == [d EXCEPT !.meta = Append(@, <<k, x>>)]

(* --------------------------- small closed world --------------------------- *)
CONSTANTS Nums, NObj, Depth
VARIABLES obj, file, n
dvars == <<obj, file, n>>
Num(v) == [k |-> "num", v |-> v]
Word == [k |-> "word", v |-> 0]
Cells == { Num(v) : v \in Nums } \cup {Word, [k |-> "nan", v |-> NaN]}
Rows == { << <<Num(1), Num(v), a, b>> >> : v \in Nums, a \in Cells, b \in Cells } \cup { << <<Num(1), Num(2)>>, <<Num(3), Num(v), a>> >> : v \in Nums, a \in Cells } \cup {<<>>}
Heads == { [stype |-> s, qmax |-> q, qdamp |-> None, qbroad |-> None, spd |-> None, dscale |-> None, temp |-> t, dop |-> None, meta |-> m]
           : s \in {"", "N"}, q \in {None, <<20000>>}, t \in {None, <<300000>>}, m \in {<<>>, << <<"temperature", 5>> >>} }
Init == obj = [i \in 1..NObj |-> Default] /\ file = Default /\ n = 0
Read == \E i \in 1..NObj, h \in Heads, r \in Rows : ~Broken(r) /\ obj' = [obj EXCEPT ![i] = FromText(h, r, "")] /\ file' = file
Set == \E i \in 1..NObj, v \in Nums : obj' = [obj EXCEPT ![i] = SetVar(@, "qdamp", v)] /\ file' = file
Clear == \E i \in 1..NObj : obj' = [obj EXCEPT ![i] = Default] /\ file' = file
Copy == \E i, j \in 1..NObj : obj' = [obj EXCEPT ![j] = CopyOf(obj[i])] /\ file' = file
Put == \E i \in 1..NObj, v \in Nums : obj' = [obj EXCEPT ![i] = PutMeta(@, "k", v)] /\ file' = file
Write == \E i \in 1..NObj : Len(obj[i].rob) > 0 /\ file' = obj[i] /\ obj' = obj
Load == \E i \in 1..NObj : file # Default /\ obj' = [obj EXCEPT ![i] = file] /\ file' = file
Next == n < Depth /\ n' = n + 1 /\ (Read \/ Set \/ Clear \/ Copy \/ Put \/ Write \/ Load)
Spec == Init /\ [][Next]_dvars
Bare(d) == [d EXCEPT !.meta = <<>>]
Small == \A i \in 1..NObj : Len(obj[i].meta) <= 3
Consistent == \A i \in 1..NObj : LET d == obj[i] IN
  /\ Len(d.dr) = Len(d.rob) /\ Len(d.dg) = Len(d.rob) /\ Len(d.gob) = Len(d.rob)
  /\ (Positive(d.dr) \/ d.dr = Zeros(Len(d.dr))) /\ (Positive(d.dg) \/ d.dg = Zeros(Len(d.dg)))
  /\ (d.rmin = None) = (Len(d.rob) = 0)
(* what is kept in memory of this size is itself an allowed reading of what was written *)
Exact == \A i \in 1..NObj : Len(obj[i].rob) > 0 => \A f \in Fields : ReadsBack(obj[i], obj[i], f)
OneValue == \A i \in 1..NObj : \A a, b \in Pairs(obj[i].meta) : a[1] = b[1] => a = b
==============================================================================
