----------------------------- MODULE ElasticOutput -----------------------------
(***************************************************************************)
(* Outputs of the ab initio codes with elastic constants, as sequences of  *)
(* printed sections, and what an input generated from them must hold.      *)
(*                                                                         *)
(* A section is a record: s is its name; a section with a table has rows,  *)
(* the printed numbers row by row, <<>> for an entry that is no number (a  *)
(* table cut short has fewer rows); a section with a density has rho.      *)
(***************************************************************************)
EXTENDS Integers, Sequences
Fail == [ok |-> FALSE, C |-> <<>>, rho |-> <<>>]
Names == <<"xx", "yy", "zz", "yz", "xz", "xy">>          \* the standard Voigt order
VaspNames == <<"xx", "yy", "zz", "xy", "yz", "xz">>      \* the order of VASP
Place(n, names) == CHOOSE k \in 1..6 : names[k] = n
Where(doc, P(_)) == SelectSeq([k \in 1..Len(doc) |-> k], LAMBDA k : P(doc[k]))
Has6(rows, width(_)) == /\ Len(rows) = 6
                        /\ \A i \in 1..6 : Len(rows[i]) = width(i) /\ \A j \in 1..width(i) : rows[i][j] # <<>>

(* CRYSTAL: the upper triangle of the symmetrized constants among the      *)
(* final results, in GPa; the density of the input geometry: the first one *)
(* printed once the geometry is consistent with the group.                 *)
CrystalMatrix(doc) == Where(doc, LAMBDA b : b.s = "constants")
CrystalDensity(doc) ==
    LET w == Where(doc, LAMBDA b : b.s = "consistent")
        d == Where(doc, LAMBDA b : b.s = "cell")
        after == SelectSeq(d, LAMBDA k : Len(w) > 0 /\ k > w[1])
    IN  IF after = <<>> THEN <<>> ELSE doc[after[1]].rho
Upper(i) == 7 - i
ReadCrystal(doc) ==
    IF \/ Where(doc, LAMBDA b : b.s = "option") = <<>>
       \/ Where(doc, LAMBDA b : b.s = "final") = <<>>
       \/ CrystalMatrix(doc) = <<>> THEN Fail
    ELSE LET m == doc[CrystalMatrix(doc)[1]].rows IN
         IF ~Has6(m, Upper) THEN Fail
         ELSE [ok |-> TRUE, rho |-> CrystalDensity(doc),
               C |-> [i \in 1..6 |-> [j \in 1..6 |-> IF i <= j THEN m[i][j - i + 1] ELSE m[j][i - j + 1]]]]

(* VASP: the total moduli if ionic relaxation was included, else the       *)
(* symmetrized ones, in kBar and in the order of VASP; no density.         *)
Six(i) == 6
VaspMatrix(doc) ==
    LET t == Where(doc, LAMBDA b : b.s = "total")
        c == Where(doc, LAMBDA b : b.s = "clamped")
    IN  IF c = <<>> THEN <<>> ELSE IF t # <<>> THEN doc[t[Len(t)]].rows ELSE doc[c[Len(c)]].rows
ReadVasp(doc) ==
    LET m == VaspMatrix(doc) IN
    IF ~Has6(m, Six) THEN Fail
    ELSE [ok |-> TRUE, rho |-> <<>>,
          C |-> [i \in 1..6 |-> [j \in 1..6 |-> m[Place(Names[i], VaspNames)][Place(Names[j], VaspNames)]]]]
ReadOut(code, doc) == IF code = "crystal" THEN ReadCrystal(doc) ELSE ReadVasp(doc)
=============================================================================
