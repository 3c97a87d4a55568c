------------------------------ MODULE EosForms ------------------------------
(***************************************************************************)
(* Equations of state.  P-V parameters are <<K0, K', K'', V0>>, E-V        *)
(* parameters <<E0, K0, K', V0>>.                                          *)
(***************************************************************************)
EXTENDS Linalg

Formulations == {"M", "BM", "NS", "V", "T"}
OneThird == Q(1, 3)

\* parameters implied by a truncation at the given order (volume equations)
ImpliedKp(f) == CASE f = "BM" -> I(4) [] f = "NS" -> I(2) [] f = "V" -> One [] f = "T" -> I(4)
ImpliedKpp(f, K, Kp) ==
    CASE f = "M" -> Zero
      [] f = "BM" -> Neg(Div(Add(Mul(Sub(I(3), Kp), Sub(I(4), Kp)), Q(35, 9)), K))
      [] f = "NS" -> LET d == Sub(Kp, Two) IN Neg(Div(Add(Add(One, d), Sq(d)), K))
      [] f = "V" -> LET d == Mul(Half, Kp) IN Neg(Div(Sub(Add(Sq(d), d), Q(19, 36)), K))
      [] f = "T" -> Neg(Div(Kp, K))
\* the complete parameters in force at an order
Complete(f, order, p) ==
    LET kp == IF order = 2 /\ f # "M" THEN ImpliedKp(f) ELSE p[2]
        kpp == IF order < 4 \/ f \in {"M", "V"} THEN ImpliedKpp(f, p[1], kp) ELSE p[3]
    IN  <<p[1], kp, kpp, p[4]>>

\* axis data: the equation holds in the length with the linear moduli M0, M', M'';
\* the implied M' is three times the implied K'
CompleteFor(f, order, linear, p) ==
    LET kp == IF order = 2 /\ f # "M" THEN Mul(I(IF linear THEN 3 ELSE 1), ImpliedKp(f)) ELSE p[2]
        kpp == IF order < 4 \/ f \in {"M", "V"} THEN ImpliedKpp(f, p[1], kp) ELSE p[3]
    IN  <<p[1], kp, kpp, p[4]>>

\* the documented closed forms
PV(f, p, V) ==
    LET K == p[1]
        Kp == p[2]
        Kpp == p[3]
        V0 == p[4]
    IN
    CASE f = "M" -> Mul(Div(K, Kp), Sub(RPow(Div(V0, V), Kp), One))
      [] f = "BM" ->
           LET t == Cbrt(Div(V0, V))
               fe == Mul(Half, Sub(Sq(t), One))
               b == Add(Mul(K, Kpp), Add(Mul(Sub(Kp, I(4)), Sub(Kp, I(3))), Q(35, 9)))
           IN  Mul(Mul(Mul(I(3), K), Mul(fe, Pow(t, 5))),
                   Add(One, Add(Mul(Mul(Q(3, 2), Sub(Kp, I(4))), fe), Mul(Mul(Q(3, 2), b), Sq(fe)))))
      [] f = "NS" ->
           LET fn == Mul(OneThird, Ln(Div(V0, V)))
               d == Sub(Kp, Two)
               a == Mul(Q(3, 2), d)
               b == Mul(Q(3, 2), Add(Add(One, Mul(K, Kpp)), Add(d, Sq(d))))
           IN  Mul(Mul(Mul(I(3), K), Mul(Div(V0, V), fn)), Add(One, Add(Mul(a, fn), Mul(b, Sq(fn)))))
      [] f = "V" ->
           LET x == Cbrt(Div(V, V0))
               fv == Sub(One, x)
           IN  Mul(Mul(Mul(I(3), K), Div(fv, Sq(x))), Exp(Mul(Mul(Q(3, 2), Sub(Kp, One)), fv)))
      [] f = "T" ->
           LET kk == Mul(K, Kpp)
               a == Div(Add(One, Kp), Add(Add(One, Kp), kk))
               b == Sub(Div(Kp, K), Div(Kpp, Add(One, Kp)))
               c == Div(Add(Add(One, Kp), kk), Sub(Add(Sq(Kp), Kp), kk))
               base == Div(Add(Div(V, V0), Sub(a, One)), a)
           IN  Mul(Div(One, b), Sub(RPow(base, Neg(Div(One, c))), One))

\* energy forms: E0 + the integral of -P (third order truncation)
EV(f, p, V) ==
    LET E0 == p[1]
        K == p[2]
        Kp == p[3]
        V0 == p[4]
    IN
    CASE f = "M" -> Add(E0, Sub(Mul(Div(Mul(K, V), Kp), Add(Div(RPow(Div(V0, V), Kp), Sub(Kp, One)), One)),
                                Div(Mul(K, V0), Sub(Kp, One))))
      [] f = "BM" -> LET x == Sub(Sq(Cbrt(Div(V0, V))), One)
                     IN  Add(E0, Mul(Mul(Q(9, 16), Mul(K, V0)),
                              Add(Mul(Kp, Pow(x, 3)), Mul(Sq(x), Sub(Two, Mul(I(4), x))))))
      [] f = "NS" -> LET r == Ln(Div(V0, V))
                     IN  Add(E0, Mul(Div(Mul(Mul(K, V0), Sq(r)), I(6)), Add(I(3), Mul(r, Sub(Kp, Two)))))
      [] f = "V" -> LET x == Cbrt(Div(V, V0))
                        k1 == Sub(Kp, One)
                        y == Mul(Mul(Q(3, 2), k1), Sub(x, One))
                    IN  Add(E0, Mul(Div(Mul(I(4), Mul(K, V0)), Sq(k1)),
                             Sub(One, Mul(Add(One, y), Exp(Neg(y))))))
=============================================================================
