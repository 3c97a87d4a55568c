------------------------------- MODULE Symmetry -------------------------------
(***************************************************************************)
(* Laue classes of a stiffness matrix in the standard setting (Nye): the   *)
(* relations each class requires between the 21 elastic constants.         *)
(* A relation is a linear form that must vanish: a function from           *)
(* constants to integer weights.  A constant is 10*i+j with i <= j.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Keys == {11, 12, 13, 14, 15, 16, 22, 23, 24, 25, 26, 33, 34, 35, 36, 44, 45, 46, 55, 56, 66}
Form(f) == [k \in Keys |-> IF k \in DOMAIN f THEN f[k] ELSE 0]
Zero(k) == Form([x \in {k} |-> 1])
Same(j, k) == Form([x \in {j, k} |-> IF x = j THEN 1 ELSE -1])
Opposite(j, k) == Form([x \in {j, k} |-> 1])
C66 == Form([x \in {66, 11, 12} |-> CASE x = 66 -> 2 [] x = 11 -> -1 [] x = 12 -> 1])
Zeros(S) == {Zero(k) : k \in S}
Equal(S) == {Same(p[1], p[2]) : p \in {q \in S \X S : q[1] < q[2]}}
Classes == <<"cubic", "hexagonal", "trigonal_high", "trigonal_low", "tetragonal_high", "tetragonal_low",
             "orthorhombic", "monoclinic", "triclinic">>
Axial == Equal({11, 22}) \cup Equal({13, 23}) \cup Equal({44, 55})
Off == {14, 15, 16, 24, 25, 26, 34, 35, 36, 45, 46, 56}
Relations(c) ==
    CASE c = "cubic" -> Equal({11, 22, 33}) \cup Equal({12, 13, 23}) \cup Equal({44, 55, 66}) \cup Zeros(Off)
      [] c = "hexagonal" -> Axial \cup {C66} \cup Zeros(Off)
      [] c = "trigonal_high" -> Axial \cup {C66, Opposite(14, 24), Same(14, 56), Opposite(24, 56)} \cup Zeros(Off \ {14, 24, 56})
      [] c = "trigonal_low" -> Axial \cup {C66, Opposite(14, 24), Same(14, 56), Opposite(24, 56), Opposite(15, 25),
                                           Opposite(15, 46), Same(25, 46)} \cup Zeros(Off \ {14, 24, 56, 15, 25, 46})
      [] c = "tetragonal_high" -> Axial \cup Zeros(Off)
      [] c = "tetragonal_low" -> Axial \cup {Opposite(16, 26)} \cup Zeros(Off \ {16, 26})
      [] c = "orthorhombic" -> Zeros(Off)
      [] c = "monoclinic" -> Zeros(Off \ {15, 25, 35, 46})
      [] c = "triclinic" -> {}
Rels == [c \in {Classes[k] : k \in 1..Len(Classes)} |-> Relations(c)]
RECURSIVE SumOver(_, _, _)
SumOver(f, m, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN f[k] * m[k] + SumOver(f, m, S \ {k})
Support(f) == {k \in Keys : f[k] # 0}
Value(f, m) == SumOver(f, m, Support(f))
\* the tolerance applies to a difference; C66 is stated as twice a difference
Tol(f, tol) == IF Cardinality(Support(f)) = 3 THEN 2 * tol ELSE tol
AbsI(x) == IF x < 0 THEN -x ELSE x
Holds(f, m, tol) == AbsI(Value(f, m)) <= Tol(f, tol)
Member(c, m, tol) == \A f \in Rels[c] : Holds(f, m, tol)
\* the most symmetric class: the first one, in the order of Classes, that the matrix belongs to
Recognise(m, tol) == Classes[CHOOSE k \in 1..Len(Classes) : /\ Member(Classes[k], m, tol)
                                                            /\ \A j \in 1..(k - 1) : ~Member(Classes[j], m, tol)]
\* number of independent constants of a class (literature)
Independent == [c \in DOMAIN Rels |-> CASE c = "cubic" -> 3 [] c = "hexagonal" -> 5 [] c = "trigonal_high" -> 6
                 [] c = "trigonal_low" -> 7 [] c = "tetragonal_high" -> 6 [] c = "tetragonal_low" -> 7
                 [] c = "orthorhombic" -> 9 [] c = "monoclinic" -> 13 [] c = "triclinic" -> 21]
\* the class generated by its independent constants
Build(c, x) ==
    LET z == [k \in Keys |-> 0]
        ax(m) == [m EXCEPT ![22] = m[11], ![23] = m[13], ![55] = m[44]]
        hex(m) == [ax(m) EXCEPT ![66] = (m[11] - m[12]) \div 2]
        pick(S) == [k \in Keys |-> IF k \in S THEN x[k] ELSE 0]
    IN  CASE c = "cubic" -> LET m == pick({11, 12, 44}) IN
                  [m EXCEPT ![22] = m[11], ![33] = m[11], ![13] = m[12], ![23] = m[12], ![55] = m[44], ![66] = m[44]]
          [] c = "hexagonal" -> hex(pick({11, 12, 13, 33, 44}))
          [] c = "trigonal_high" -> LET m == hex(pick({11, 12, 13, 33, 44, 14})) IN [m EXCEPT ![24] = -m[14], ![56] = m[14]]
          [] c = "trigonal_low" -> LET m == hex(pick({11, 12, 13, 33, 44, 14, 15})) IN
                  [m EXCEPT ![24] = -m[14], ![56] = m[14], ![25] = -m[15], ![46] = -m[15]]
          [] c = "tetragonal_high" -> ax(pick({11, 12, 13, 33, 44, 66}))
          [] c = "tetragonal_low" -> LET m == ax(pick({11, 12, 13, 33, 44, 66, 16})) IN [m EXCEPT ![26] = -m[16]]
          [] c = "orthorhombic" -> pick({11, 12, 13, 22, 23, 33, 44, 55, 66})
          [] c = "monoclinic" -> pick({11, 12, 13, 22, 23, 33, 44, 55, 66, 15, 25, 35, 46})
          [] c = "triclinic" -> x
=============================================================================
