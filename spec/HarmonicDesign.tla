--------------------------- MODULE HarmonicDesign ---------------------------
(***************************************************************************)
(* The oscillator functions on a grid of frequencies and temperatures:     *)
(* the thermodynamic identities hold between them.                         *)
(***************************************************************************)
EXTENDS Harmonic
CONSTANTS Freqs, Temps        \* cm^-1 * 10 (shifted by 50), K * 10
VARIABLES f, t
Init == f \in Freqs /\ t \in Temps
Next == UNCHANGED <<f, t>>
Spec == Init /\ [][Next]_<<f, t>>
nu(k) == Mul(ScaleT["frequency"]["cm^-1"], Q(k - 50, 10))
T == Q(t, 10)
o == Osc(nu(f), T)
Tol == Eps(25)
Identity == /\ Near(o[FVIB], Sub(Add(o[UZP], o[UTH]), Mul(T, o[ENT])), Tol, Add(Abs(o[FVIB]), I(1)))
ThirdLaw == t = 0 => /\ o[UTH] = Zero /\ o[ENT] = Zero /\ o[CV] = Zero /\ o[FVIB] = o[UZP]
\* derivatives by central differences of step 10^-8 T
dT == Mul(T, Eps(8))
up == Osc(nu(f), Add(T, dT))
dn == Osc(nu(f), Sub(T, dT))
D(p) == Div(Sub(up[p], dn[p]), Mul(Two, dT))
Slopes == t > 0 =>
    /\ Near(o[ENT], Neg(D(FVIB)), Eps(9), Add(Abs(o[ENT]), Mul(RGAS, Eps(6))))
    /\ Near(o[CV], D(UTH), Eps(9), Add(Abs(o[CV]), Mul(RGAS, Eps(6))))
Bounds == /\ NonNeg(o[UTH]) /\ NonNeg(o[ENT]) /\ NonNeg(o[CV])
          /\ Le(o[CV], RGAS) /\ Le(o[FVIB], o[UZP])
          /\ (f <= 50 => \A p \in 1..5 : o[p] = Zero)
=============================================================================
