------------------------------ MODULE Kieffer ------------------------------
(***************************************************************************)
(* Kieffer's model: an acoustic branch with cut-off nu has the density of  *)
(* states of a sine dispersion, 3 (2/pi)^3 asin^2(x/xi)/sqrt(xi^2-x^2),    *)
(* normalised to one oscillator.  With x = xi sin(theta) every property is *)
(* the integral over theta in [0, pi/2] of 3 (2/pi)^3 theta^2 times the    *)
(* single-oscillator expression (thermal part).  The quadrature is the     *)
(* double exponential rule with step 1/12 on [-3, 3]: absolute error below *)
(* 10^-11 R for all xi <= 1500.                                            *)
(***************************************************************************)
EXTENDS Harmonic
KHalf == 36
KH == Q(1, 12)
\* <<theta, weight>> of node k
KNode(k) ==
    LET t == Mul(I(k), KH)
        ep == Exp(t)
        em == Exp(Neg(t))
        sh == Mul(Half, Sub(ep, em))
        ch == Mul(Half, Add(ep, em))
        s == Div(One, Add(One, Exp(Neg(Mul(Pi, sh)))))
        th == Mul(Mul(Half, Pi), s)
        jac == Mul(Mul(Mul(Half, Pi), Mul(s, Sub(One, s))), Mul(Mul(Pi, ch), KH))
    IN  <<Sin(th), Mul(Mul(Mul(I(3), Pow(Div(Two, Pi), 3)), Sq(th)), jac)>>
KNodes == TLCEval([k \in 1..(2 * KHalf + 1) |-> KNode(k - 1 - KHalf)])
\* thermal part of one oscillator in units of R (and RT): <<F, S, C>>
KOsc(x) == LET e == TLCEval(Exp(Neg(x)))
               q == TLCEval(Sub(One, e))
               n == TLCEval(Div(e, q))
               lq == TLCEval(Ln(q))
           IN  <<lq, Sub(Mul(x, n), lq), Mul(Sq(x), Mul(n, Add(One, n)))>>
\* <<F, S, Cv>> in J/mol, J/mol/K of one branch with cut-off nu (Hz)
KBranch(nu, T) ==
    IF ~Pos(T) THEN <<Zero, Zero, Zero>>
    ELSE LET kn == TLCEval(KNodes)
             xi == TLCEval(Div(Mul(PLANCK, nu), Mul(KBOLTZ, T)))
             o == TLCEval([k \in 1..Len(kn) |-> KOsc(TLCEval(Mul(xi, kn[k][1])))])
             s(p) == Sum([k \in 1..Len(kn) |-> Mul(kn[k][2], o[k][p])])
         IN  <<Mul(Mul(RGAS, T), s(1)), Mul(RGAS, s(2)), Mul(RGAS, s(3))>>
KSum(nus, T) == LET b == TLCEval([i \in 1..Len(nus) |-> KBranch(nus[i], T)])
                IN  TLCEval([p \in 1..3 |-> Sum([i \in 1..Len(nus) |-> b[i][p]])])
=============================================================================
