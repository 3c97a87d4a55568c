------------------------------ MODULE SoecReader ------------------------------
(***************************************************************************)
(* Input files of the elastic analysis.  A file is a sequence of lines, a  *)
(* line a sequence of words [num |-> is it a number, v |-> its value].     *)
(* Read(lines) is what a reader must expose: an error, or title, matrix    *)
(* and density (title line 0: none; density word <<>>: not given).         *)
(***************************************************************************)
EXTENDS Integers, Sequences
Numeric(line) == \A k \in 1..Len(line) : line[k].num
Full == <<6, 6, 6, 6, 6, 6>>
Upper == <<6, 5, 4, 3, 2, 1>>
Lower == <<1, 2, 3, 4, 5, 6>>
Fail == [ok |-> FALSE, title |-> 0, C |-> <<>>, rho |-> <<>>]
\* the value of element i, j in rows of the given form
Cell(rows, form, i, j) ==
    CASE form = Full -> rows[i][j].v
      [] form = Upper -> IF i <= j THEN rows[i][j - i + 1].v ELSE rows[j][i - j + 1].v
      [] form = Lower -> IF i >= j THEN rows[i][j].v ELSE rows[j][i].v
Read(lines) ==
    LET n == Len(lines)
        FormAt(k) == IF n < k + 5 THEN <<>> ELSE [i \in 1..6 |-> Len(lines[k + i - 1])]
        \* a title can be made of numbers, when they cannot be the first row
        title == IF n > 0 /\ (~Numeric(lines[1]) \/ (FormAt(1) \notin {Full, Upper, Lower} /\ FormAt(2) \in {Full, Upper, Lower})) THEN 1 ELSE 0
    IN  IF n < title + 6 THEN Fail
        ELSE LET rows == [i \in 1..6 |-> lines[title + i]]
                 form == [i \in 1..6 |-> Len(rows[i])]
             IN  IF form \notin {Full, Upper, Lower} \/ \E i \in 1..6 : ~Numeric(rows[i]) THEN Fail
                 ELSE LET C == [i \in 1..6 |-> [j \in 1..6 |-> Cell(rows, form, i, j)]]
                          dens == IF n > title + 6 THEN lines[title + 7] ELSE <<>>
                      IN  IF \E i, j \in 1..6 : C[i][j] # C[j][i] THEN Fail
                          ELSE IF dens # <<>> /\ ~dens[1].num THEN Fail
                          ELSE [ok |-> TRUE, title |-> title, C |-> C, rho |-> IF dens = <<>> THEN <<>> ELSE <<dens[1].v>>]
=============================================================================
