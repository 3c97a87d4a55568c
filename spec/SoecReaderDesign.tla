--------------------------- MODULE SoecReaderDesign ---------------------------
(***************************************************************************)
(* Every documented layout of an elastic input file, with at most one      *)
(* defect, written out as lines; reading it back gives the written data,   *)
(* or an error exactly when there is a defect.                             *)
(***************************************************************************)
EXTENDS SoecReader, TLC, Json
CONSTANT Rows
VARIABLE lay
Titles == {"none", "text", "digit", "number", "numbers"}
Forms == {"full", "upper", "lower"}
Density == {"none", "blank", "number", "extra"}
Defects == {[what |-> "none", row |-> 0]}
           \cup [what : {"short", "long", "missing", "nonnumeric", "nan", "asym"}, row : Rows]
           \cup {[what |-> "density", row |-> 0]}
Layouts == [title : Titles, form : Forms, density : Density, defect : Defects]
Valid(y) == /\ y.defect.what = "asym" => y.form = "full"
            /\ y.defect.what = "density" => y.density \in {"number", "extra"}
            \* files starting with a blank line are not considered (the tests ask for an exception there)
            /\ ~(y.form = "lower" /\ y.defect = [what |-> "short", row |-> 1] /\ y.title = "none")
            \* an upper triangle whose last row is missing takes the density for it: no reader can tell
            /\ ~(y.form = "upper" /\ y.defect = [what |-> "missing", row |-> 6] /\ y.density = "number")
            \* nor whether a number before a lower triangle without its first row is a title
            /\ ~(y.form = "lower" /\ y.defect = [what |-> "missing", row |-> 1] /\ y.title = "number")
            /\ y.defect.what = "nonnumeric" => (y.title # "none" \/ y.defect.row # 1)
Sym(i, j) == IF i <= j THEN i * 10 + j ELSE j * 10 + i          \* the 21 independent values
W(x) == [num |-> TRUE, v |-> x]
T(x) == [num |-> FALSE, v |-> x]
Row(y, i) ==
    LET full == CASE y.form = "full" -> [j \in 1..6 |-> W(Sym(i, j))]
                  [] y.form = "upper" -> [j \in 1..(7 - i) |-> W(Sym(i, i + j - 1))]
                  [] y.form = "lower" -> [j \in 1..i |-> W(Sym(i, j))]
        d == y.defect
    IN  IF d.row # i THEN full
        ELSE CASE d.what = "short" -> SubSeq(full, 2, Len(full))
               [] d.what = "long" -> Append(full, W(0))
               [] d.what \in {"nonnumeric", "nan"} -> [full EXCEPT ![Len(full)] = T(0)]
               [] d.what = "asym" -> [full EXCEPT ![IF i = 1 THEN 2 ELSE 1] = W(99)]
               [] OTHER -> full
Keep(y) == SelectSeq(<<1, 2, 3, 4, 5, 6>>, LAMBDA i : ~(y.defect.what = "missing" /\ y.defect.row = i))
Lines(y) ==
    (CASE y.title = "none" -> <<>> [] y.title = "text" -> <<<<T(0)>>>> [] y.title = "digit" -> <<<<W(2), T(0)>>>>
       [] y.title = "number" -> <<<<W(2020)>>>> [] y.title = "numbers" -> <<<<W(2020), W(11), W(20)>>>>)
    \o [k \in 1..Len(Keep(y)) |-> Row(y, Keep(y)[k])]
    \o (CASE y.density = "none" -> <<>> [] y.density = "blank" -> <<<<>>>>
          [] y.density = "number" -> <<<<IF y.defect.what = "density" THEN T(0) ELSE W(3000)>>>>
          [] y.density = "extra" -> <<<<IF y.defect.what = "density" THEN T(0) ELSE W(3000), T(1)>>>>)
Init == lay \in {y \in Layouts : Valid(y)}
Next == UNCHANGED lay
Spec == Init /\ [][Next]_lay
Faithful ==
    LET r == Read(Lines(lay)) IN
    IF lay.defect.what = "none"
    THEN /\ r.ok
         /\ r.C = [i \in 1..6 |-> [j \in 1..6 |-> Sym(i, j)]]
         /\ r.title = (IF lay.title = "none" THEN 0 ELSE 1)
         /\ r.rho = (IF lay.density \in {"number", "extra"} THEN <<3000>> ELSE <<>>)
    ELSE ~r.ok
Emit == PrintT("VQSC " \o ToJson(lay))
=============================================================================
