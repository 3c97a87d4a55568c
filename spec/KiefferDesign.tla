--------------------------- MODULE KiefferDesign ---------------------------
(***************************************************************************)
(* The specified branch properties are mutually consistent: unit norm,     *)
(* S = -dF/dT, Cv = T dS/dT, F = U - TS with U >= 0, the classical limit   *)
(* and the T^3 law, on a grid of cut-offs and temperatures.                *)
(***************************************************************************)
EXTENDS Kieffer
CONSTANTS Nus, Temps          \* cut-offs in 10^11 Hz, temperatures in 0.1 K
VARIABLES nu, t, vals          \* vals = values at T - D, T, T + D
NuHz(n) == Mul(I(n), Dec(1, 11))
Tk(x) == Q(x, 10)
Init == /\ nu \in Nus /\ t \in Temps
        /\ vals = LET T0 == TLCEval(Tk(t)) D0 == TLCEval(Mul(T0, Eps(4)))
                   IN  <<KBranch(TLCEval(NuHz(nu)), TLCEval(Sub(T0, D0))), KBranch(TLCEval(NuHz(nu)), T0), KBranch(TLCEval(NuHz(nu)), TLCEval(Add(T0, D0)))>>
Next == UNCHANGED <<nu, t, vals>>
Spec == Init /\ [][Next]_<<nu, t, vals>>
T == Tk(t)
Norm == LET kn == TLCEval(KNodes) IN Near(Sum([k \in 1..Len(kn) |-> kn[k][2]]), One, Eps(11), One)
D == Mul(T, Eps(4))
lo == vals[1]
hi == vals[3]
at == vals[2]
Entropy == Near(Neg(Div(Sub(hi[1], lo[1]), Mul(Two, D))), at[2], Eps(7), Add(at[2], RGAS))
HeatCap == Near(Mul(T, Div(Sub(hi[2], lo[2]), Mul(Two, D))), at[3], Eps(7), RGAS)
Bounds == /\ ~Pos(at[1]) /\ NonNeg(at[2])
          /\ NonNeg(at[3]) /\ Le(at[3], Mul(RGAS, Add(One, Eps(9))))
          /\ NonNeg(Add(at[1], Mul(T, at[2])))
xi == Div(Mul(PLANCK, NuHz(nu)), Mul(KBOLTZ, T))
Classical == Lt(xi, Q(1, 10)) => Near(at[3], RGAS, Q(1, 1000), RGAS)
\* low temperature: C = 3 (2/pi)^3 / xi^3 * 4 pi^4 / 15 ... (Debye-like T^3)
Cubic == Gt(xi, I(60)) => Close(Mul(at[3], Pow(xi, 3)),
             Mul(RGAS, Mul(Mul(I(3), Pow(Div(Two, Pi), 3)), Div(Mul(I(4), Pow(Pi, 4)), I(15)))), Q(1, 50))
=============================================================================
