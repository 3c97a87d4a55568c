-------------------------- MODULE ElasticOutputDesign --------------------------
(***************************************************************************)
(* Sessions of input generations.  The outputs are built section by        *)
(* section the way the codes print them (optional sections left out, the   *)
(* run killed in the middle of the last one); a generation writes the      *)
(* input file or reports an error, whatever was generated before.          *)
(***************************************************************************)
EXTENDS ElasticOutput, FiniteSets, TLC, Json
VARIABLES code, doc, closed, done
vars == <<code, doc, closed, done>>
Sym(i, j) == <<IF i <= j THEN i * 10 + j ELSE j * 10 + i>>
\* names of the components in order: the value printed for components a and b
Val(a, b) == Sym(Place(a, Names), Place(b, Names))
Triangle == [i \in 1..6 |-> [j \in 1..(7 - i) |-> Val(Names[i], Names[i + j - 1])]]
Square == [i \in 1..6 |-> [j \in 1..6 |-> Val(VaspNames[i], VaspNames[j])]]
Order(c) == IF c = "crystal" THEN <<"cell0", "consistent", "cell", "cell2", "option", "scf", "final", "constants", "compliance", "end">>
            ELSE <<"moduli", "clamped", "relaxation", "total", "end">>
Must(c) == IF c = "crystal" THEN {"consistent", "option", "final", "constants", "end"} ELSE {"clamped", "end"}
Table(s) == s \in {"constants", "compliance", "moduli", "clamped", "relaxation", "total"}
In(s) == \E k \in 1..Len(doc) : doc[k] = s
Rows(s) == CASE s = "constants" -> Triangle
             [] s = "compliance" -> [i \in 1..6 |-> [j \in 1..(7 - i) |-> <<0>>]]
             [] s = "moduli" -> [i \in 1..6 |-> [j \in 1..6 |-> <<1>>]]
             [] s = "relaxation" -> [i \in 1..6 |-> [j \in 1..6 |-> <<2>>]]
             [] s = "total" -> Square
             [] s = "clamped" -> IF In("total") THEN [i \in 1..6 |-> [j \in 1..6 |-> <<3>>]] ELSE Square
Block(s) == CASE Table(s) -> [s |-> s, rows |-> Rows(s)]
              [] s = "cell0" -> [s |-> "cell", rho |-> <<1>>]
              [] s = "cell" -> [s |-> "cell", rho |-> <<2>>]
              [] s = "cell2" -> [s |-> "cell", rho |-> <<3>>]
              [] OTHER -> [s |-> s]
Pos(c, s) == CHOOSE k \in 1..Len(Order(c)) : Order(c)[k] = s
Printed(c, names) == [k \in 1..Len(names) |-> Block(names[k])]
Garble(b, g) == CASE g = "stars" -> [b EXCEPT !.rows[3][2] = <<>>]       \* overflow of the printed field
                  [] g = "short" -> [b EXCEPT !.rows = SubSeq(b.rows, 1, 4)]
                  [] g = "none" -> b
\* doc: names of the printed sections; closed: how the last one ended
Init == code \in {"crystal", "vasp"} /\ doc = <<>> /\ closed = "open" /\ done = FALSE
Section(s) ==
    /\ closed = "open"
    /\ LET from == IF doc = <<>> THEN 0 ELSE Pos(code, doc[Len(doc)])
           to == Pos(code, s)
       IN  /\ to > from
           \* a required section is left out only when the calculation is of another kind
           /\ \A k \in (from + 1)..(to - 1) : Order(code)[k] \in {"final", "option", "clamped", "constants"} \/ Order(code)[k] \notin Must(code)
           /\ (s = "total") => \E k \in 1..Len(doc) : doc[k] = "clamped"
           /\ (s = "compliance") => \E k \in 1..Len(doc) : doc[k] = "constants"
           /\ (s = "constants") => \E k \in 1..Len(doc) : doc[k] = "final"
    /\ doc' = Append(doc, s)
    /\ closed' = IF s = "end" THEN "none" ELSE "open"
    /\ UNCHANGED <<code, done>>
Killed == /\ closed = "open" /\ doc # <<>> /\ closed' = "none" /\ UNCHANGED <<code, doc, done>>
Spoiled(g) == /\ closed = "open" /\ doc # <<>> /\ Table(doc[Len(doc)]) /\ closed' = g /\ UNCHANGED <<code, doc, done>>
Finish == /\ closed # "open" /\ ~done /\ done' = TRUE /\ UNCHANGED <<code, doc, closed>>
Next == \/ \E s \in {Order(code)[k] : k \in 1..Len(Order(code))} : Section(s)
        \/ Killed \/ \E g \in {"stars", "short"} : Spoiled(g) \/ Finish
Spec == Init /\ [][Next]_vars
Doc == LET p == Printed(code, doc) IN [k \in 1..Len(p) |-> IF k = Len(p) /\ closed \notin {"open", "none"} THEN Garble(p[k], closed) ELSE p[k]]
Broken(s) == closed \in {"stars", "short"} /\ doc[Len(doc)] = s
\* what a reader of the printed sections makes of them
Complete == IF code = "crystal" THEN In("option") /\ In("final") /\ In("constants") /\ ~Broken("constants")
            ELSE In("clamped") /\ ~Broken("total") /\ (In("total") \/ ~Broken("clamped"))
Meaning ==
    done => LET r == ReadOut(code, Doc) IN
            /\ r.ok = Complete
            /\ r.ok => /\ r.C = [i \in 1..6 |-> [j \in 1..6 |-> Sym(i, j)]]
                       /\ \A i, j \in 1..6 : r.C[i][j] = r.C[j][i]
                       /\ code = "vasp" => r.rho = <<>>
                       /\ code = "crystal" => r.rho = (IF In("cell") THEN <<2>> ELSE IF In("cell2") THEN <<3>> ELSE <<>>)
Emit == done => PrintT("VQSC " \o ToJson([code |-> code, sections |-> doc, spoiled |-> closed, ok |-> Complete]))
=============================================================================
