---------------------------- MODULE SymmetryDesign ----------------------------
(***************************************************************************)
(* Every class with generic constants, and every single constant of it     *)
(* displaced by an amount above or below the tolerance, in both            *)
(* directions.  The matrix is recognised as its class until a relation is  *)
(* broken, then as a class whose relations hold; relations of a class hold *)
(* in the classes it specialises.                                          *)
(* Units: 10^-5 GPa; tolerance 100.                                        *)
(***************************************************************************)
EXTENDS Symmetry, TLC, Json
CONSTANT Shifts
VARIABLES class, key, shift
Tolerance == 100
\* generic constants: pairwise differences and combinations far from zero
Generic == [k \in Keys |-> CASE k = 11 -> 30000000 [] k = 12 -> 11100000 [] k = 13 -> 7300000 [] k = 22 -> 26500000
              [] k = 23 -> 5900000 [] k = 33 -> 41700000 [] k = 44 -> 8800000 [] k = 55 -> 6100000 [] k = 66 -> 3700000
              [] OTHER -> 100000 * (((k * k) % 37) + 1) * (IF k % 2 = 0 THEN 1 ELSE -1)]
Shifted(m, k, d) == [m EXCEPT ![k] = @ + d]
Base(c) == Build(c, Generic)
M == Shifted(Base(class), key, shift)
Init == /\ class \in DOMAIN Rels /\ key \in Keys /\ shift \in {s - 30000000 : s \in Shifts}
Next == FALSE /\ UNCHANGED <<class, key, shift>>
Spec == Init /\ [][Next]_<<class, key, shift>>
\* which relations of its class the displacement breaks
Broken == {f \in Rels[class] : ~Holds(f, M, Tolerance)}
Got == Recognise(M, Tolerance)
Rank(c) == CHOOSE k \in 1..Len(Classes) : Classes[k] = c
Recognised == Recognise(Base(class), Tolerance) = class
Kept == Broken = {} => Got = class
Changed == Broken # {} => Got # class /\ Member(Got, M, Tolerance) /\ Rank(Got) > Rank(class)
\* the relations leave as many free constants as the class has
Rank2 == \A c \in DOMAIN Rels : Cardinality({k \in Keys : \E d \in {1000} :
             TRUE /\ Member(c, Shifted(Base(c), k, d), Tolerance)}) <= Independent[c]
Specialises == <<<<"cubic", "tetragonal_high">>, <<"hexagonal", "trigonal_high">>, <<"trigonal_high", "trigonal_low">>,
                 <<"hexagonal", "tetragonal_high">>, <<"tetragonal_high", "tetragonal_low">>, <<"tetragonal_high", "orthorhombic">>,
                 <<"orthorhombic", "monoclinic">>, <<"monoclinic", "triclinic">>>>
Lattice == \A k \in 1..Len(Specialises) : Member(Specialises[k][2], Base(Specialises[k][1]), 0)
Emit == PrintT("VQSC " \o ToJson([class |-> class, key |-> key, shift |-> shift, broken |-> Broken # {}]))
=============================================================================
