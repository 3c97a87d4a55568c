------------------------------- MODULE EosDesign -------------------------------
(***************************************************************************)
(* The equations of state on a grid of parameters: every formulation and   *)
(* order has pressure zero at V0, the bulk modulus and derivatives given   *)
(* or implied, and the energy forms integrate the third-order pressures.   *)
(* A state is one equation with its parameters and one volume.             *)
(***************************************************************************)
EXTENDS EosForms, TLC, Json
CONSTANTS Ks, Kps, Kpps, V0s, Ratios   \* GPa, K'*10, -K K''*10, A^3, V/V0 in percent
Orders(f) == CASE f = "M" -> {3} [] f = "V" -> {2, 3} [] OTHER -> {2, 3, 4}
VARIABLES f, order, par, x
vars == <<f, order, par, x>>
Init == /\ f \in Formulations /\ order \in Orders(f)
        /\ par \in {<<k, kp, kpp, v0>> : k \in Ks, kp \in Kps, kpp \in Kpps, v0 \in V0s}
        /\ x \in Ratios
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

given == <<I(par[1]), Q(par[2], 10), Neg(Q(par[3], 10 * par[1])), I(par[4])>>
p == TLCEval(Complete(f, order, given))
V0 == p[4]
V == Mul(Q(x, 100), V0)
h == Mul(V0, Eps(7))
\* derivatives by central differences of step 10^-7 V0, in multi-precision numbers
P(v) == PV(f, p, v)
KK(v) == Neg(Mul(v, Div(Sub(P(Add(v, h)), P(Sub(v, h))), Mul(Two, h))))
dPd(v) == Div(Sub(P(Add(v, h)), P(Sub(v, h))), Mul(Two, h))
KKp(v) == Div(Div(Sub(KK(Add(v, h)), KK(Sub(v, h))), Mul(Two, h)), dPd(v))
KKpp(v) == Div(Div(Sub(KKp(Add(v, h)), KKp(Sub(v, h))), Mul(Two, h)), dPd(v))
Reference == x = 100 =>
    /\ Near(P(V0), Zero, Eps(25), p[1])
    /\ Near(KK(V0), p[1], Eps(9), p[1])
    /\ Near(KKp(V0), p[2], Eps(8), Add(One, p[2]))
    /\ Near(Mul(p[1], KKpp(V0)), Mul(p[1], p[3]), Eps(6), Add(I(20), Abs(Mul(p[1], p[3]))))
\* compression raises the pressure, expansion lowers it (third order and below, moderate strains)
Sign == (f \in {"M", "V"} /\ x # 100) => (IF x < 100 THEN Pos(P(V)) ELSE Pos(Neg(P(V))))
EvP == <<Zero, given[1], given[2], given[4]>>
Energy == (f \in {"M", "BM", "NS", "V"} /\ order = 3) =>
    /\ Near(Neg(Div(Sub(EV(f, EvP, Add(V, h)), EV(f, EvP, Sub(V, h))), Mul(Two, h))), P(V), Eps(9), Add(p[1], Abs(P(V))))
    /\ Near(EV(f, EvP, V0), Zero, Eps(25), Mul(p[1], V0))
    /\ ~Pos(Neg(Sub(EV(f, EvP, V), EV(f, EvP, V0)))) \/ x < 75 \/ x > 115
\* the Tait equation without K'' is Murnaghan's
TaitMurnaghan == f = "T" => Near(PV("T", [p EXCEPT ![3] = Zero], V), PV("M", p, V), Eps(20), p[1])
=============================================================================
