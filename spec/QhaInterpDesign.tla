-------------------------- MODULE QhaInterpDesign --------------------------
(***************************************************************************)
(* Least-squares interpolation: a linear operator that reproduces          *)
(* polynomials up to its degree, does not depend on the unit or origin of  *)
(* the abscissa, and therefore preserves F = U - T S.  Model-checked on    *)
(* all integer data over a small range; also chooses the unit changes of   *)
(* the restated runs.                                                      *)
(***************************************************************************)
EXTENDS Linalg, Json
CONSTANTS Ys, NPts, Degs
VARIABLES y, d, fac
Xs == [i \in 1..NPts |-> I(30 + 2 * i)]
Init == y \in [1..NPts -> Ys] /\ d \in Degs /\ fac \in {<<1, 1>>, <<29, 10>>}
Next == UNCHANGED <<y, d, fac>>
Spec == Init /\ [][Next]_<<y, d, fac>>
fm == Frame(Xs, d)
f2 == Frame([i \in 1..NPts |-> Mul(Xs[i], Q(fac[1], fac[2]))], d)
yr == [i \in 1..NPts |-> I(y[i])]
sq == [i \in 1..NPts |-> I(y[i] * y[i])]
at == Q(71, 2)
Linear == LET a == EvalFit(fm, Coefs(fm, yr), at)
              b == EvalFit(fm, Coefs(fm, sq), at)
              s == EvalFit(fm, Coefs(fm, [i \in 1..NPts |-> Sub(Mul(I(3), yr[i]), sq[i])]), at)
          IN  Near(s, Sub(Mul(I(3), a), b), Eps(25), I(10))
UnitFree == Near(EvalFit(fm, Coefs(fm, yr), at), EvalFit(f2, Coefs(f2, yr), Mul(at, Q(fac[1], fac[2]))), Eps(25), I(10))
Normal == LET c == Coefs(fm, yr)
              r == [i \in 1..NPts |-> Sub(yr[i], EvalFit(fm, c, Xs[i]))]
          IN  \A k \in 0..d : Near(Dot(r, [i \in 1..NPts |-> Pow(Div(Sub(Xs[i], fm.c), fm.h), k)]), Zero, Eps(25), I(10))
=============================================================================
