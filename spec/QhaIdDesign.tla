---------------------------- MODULE QhaIdDesign ----------------------------
(***************************************************************************)
(* The derived quantities of a quasi-harmonic run as functions of the      *)
(* primary ones, over a grid of exact values: the identities are mutually  *)
(* consistent (two independent routes to the same quantity agree) and the  *)
(* short-temperature-list rule applies to all of them together.            *)
(***************************************************************************)
EXTENDS Real, TLC, Json
CONSTANTS Ks, Vs, As, Cs, Ts, Counts
VARIABLES K, V, a, C, T, n
vars == <<K, V, a, C, T, n>>
Init == K \in Ks /\ V \in Vs /\ a \in As /\ C \in Cs /\ T \in Ts /\ n \in Counts
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* SI values: K GPa, V cm^3/mol, a 10^-6/K, C J/mol/K, T K
k == Mul(I(K), Dec(1, 9))
v == Mul(I(V), Dec(1, -6))
al == Mul(I(a), Dec(1, -6))
Short == n < 50
alpha == IF Short THEN Zero ELSE al
CpCv == IF Short THEN Zero ELSE Mul(Mul(Sq(alpha), k), Mul(v, I(T)))
gam == IF Short THEN Zero ELSE Div(Mul(Mul(alpha, k), v), I(C))
KS == IF Short THEN k ELSE Add(k, Div(Mul(Mul(Sq(alpha), Sq(k)), Mul(v, I(T))), I(C)))
Routes == /\ Close(KS, Mul(k, Add(One, Div(CpCv, I(C)))), Eps(30))
          /\ Close(Div(KS, k), Add(One, Mul(Mul(alpha, gam), I(T))), Eps(30))
          /\ Near(CpCv, Mul(Mul(Mul(alpha, gam), I(T)), I(C)), Eps(30), Add(One, CpCv))
Signs == Ge(KS, k) /\ NonNeg(CpCv)
Emit == PrintT("VQSC " \o ToJson([n |-> n]))
=============================================================================
