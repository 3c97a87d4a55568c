------------------------------ MODULE Harmonic ------------------------------
(***************************************************************************)
(* Statistical mechanics of independent quantum oscillators, molar values  *)
(* in SI (J/mol, J/mol/K).  nu in Hz, T in K.  Modes with a non-positive   *)
(* frequency do not contribute.                                            *)
(***************************************************************************)
EXTENDS Units

RGAS == Mul(AVOGADRO, KBOLTZ)
HN == Mul(AVOGADRO, PLANCK)            \* molar Planck constant

\* the five properties of one oscillator: <<Uzp, Uth, S, Fvib, Cv>>
Osc(nu, T) ==
    IF ~Pos(nu) THEN <<Zero, Zero, Zero, Zero, Zero>>
    ELSE LET zp == Mul(Half, Mul(HN, nu))
         IN  IF ~Pos(T) THEN <<zp, Zero, Zero, zp, Zero>>
             ELSE LET x == Div(Mul(PLANCK, nu), Mul(KBOLTZ, T))
                      e == Exp(Neg(x))
                      q == Sub(One, e)
                      n == Div(e, q)                    \* Bose-Einstein occupation
                      lq == Ln(q)
                  IN  << zp,
                         Mul(Mul(HN, nu), n),
                         Mul(RGAS, Sub(Mul(x, n), lq)),
                         Add(zp, Mul(Mul(RGAS, T), lq)),
                         Mul(RGAS, Div(Mul(Sq(x), e), Sq(q))) >>

\* weighted sums; fr[q][b] frequencies of one volume, w[q] weights
Osums(fr, w, T) ==
    LET wt == Sum(w)
        o == TLCEval([q \in 1..Len(w) |-> TLCEval([b \in 1..Len(fr[q]) |-> Osc(fr[q][b], T)])])
    IN  TLCEval([p \in 1..5 |->
          Sum([q \in 1..Len(w) |->
             Mul(Div(w[q], wt), Sum([b \in 1..Len(fr[q]) |-> o[q][b][p]]))])])

UZP == 1
UTH == 2
ENT == 3
FVIB == 4
CV == 5
=============================================================================
