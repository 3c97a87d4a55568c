---------------------------- MODULE ElasticDesign ----------------------------
(***************************************************************************)
(* The crystal is turned, step by step, by exact rotations (quarter turns  *)
(* and 3-4-5 turns about the axes).  Properties of the formulas of Elastic *)
(* at every orientation reached.                                           *)
(***************************************************************************)
EXTENDS Elastic
CONSTANT Depth
VARIABLES name, turn, steps
vars == <<name, turn, steps>>
M6(u) == [i \in 1..6 |-> [j \in 1..6 |-> I(IF i <= j THEN u[i][j - i + 1] ELSE u[j][i - j + 1])]]
Crystals ==
  [ cubic |-> M6(<<<<297, 95, 95, 0, 0, 0>>, <<297, 95, 0, 0, 0>>, <<297, 0, 0, 0>>, <<156, 0, 0>>, <<156, 0>>, <<156>>>>),
    isotropic |-> M6(<<<<300, 100, 100, 0, 0, 0>>, <<300, 100, 0, 0, 0>>, <<300, 0, 0, 0>>, <<100, 0, 0>>, <<100, 0>>, <<100>>>>),
    trigonal |-> M6(<<<<87, 7, 12, -18, 0, 0>>, <<87, 12, 18, 0, 0>>, <<106, 0, 0, 0>>, <<58, 0, 0>>, <<58, -18>>, <<40>>>>),
    orthorhombic |-> M6(<<<<320, 68, 71, 0, 0, 0>>, <<197, 77, 0, 0, 0>>, <<234, 0, 0, 0>>, <<64, 0, 0>>, <<77, 0>>, <<79>>>>),
    triclinic |-> M6(<<<<125, 53, 52, -5, 10, 1>>, <<198, 34, -3, 14, -6>>, <<207, 4, 1, -5>>, <<46, -1, -7>>, <<40, 2>>, <<60>>>>),
    unstable |-> M6(<<<<200, 150, 150, 0, 0, 0>>, <<120, 150, 10, 0, 0>>, <<180, 0, 0, 5>>, <<60, 0, 0>>, <<70, 0>>, <<30>>>>) ]
q(a, b) == Div(I(a), I(b))
c35 == q(3, 5)
s45 == q(4, 5)
Turns == [ x4 |-> <<<<One, Zero, Zero>>, <<Zero, Zero, One>>, <<Zero, I(-1), Zero>>>>,
           z4 |-> <<<<Zero, One, Zero>>, <<I(-1), Zero, Zero>>, <<Zero, Zero, One>>>>,
           xr |-> <<<<One, Zero, Zero>>, <<Zero, c35, s45>>, <<Zero, Neg(s45), c35>>>>,
           yr |-> <<<<c35, Zero, Neg(s45)>>, <<Zero, One, Zero>>, <<s45, Zero, c35>>>>,
           zr |-> <<<<c35, s45, Zero>>, <<Neg(s45), c35, Zero>>, <<Zero, Zero, One>>>> ]
Init == /\ name \in DOMAIN Crystals
        /\ turn = <<<<One, Zero, Zero>>, <<Zero, One, Zero>>, <<Zero, Zero, One>>>>
        /\ steps = 0
Next == /\ steps < Depth
        /\ \E t \in DOMAIN Turns : turn' = MatMul(Turns[t], turn)
        /\ steps' = steps + 1
        /\ UNCHANGED name
Spec == Init /\ [][Next]_vars

C0 == Crystals[name]
C == Rotated(C0, turn)
tol == Eps(25)
Eq(a, b, s) == Near(a, b, tol, s)
Frames == { <<<<q(1, 3), q(2, 3), q(2, 3)>>, <<q(2, 3), q(1, 3), q(-2, 3)>>, <<q(2, 3), q(-2, 3), q(1, 3)>>>>,
            <<<<Zero, Zero, One>>, <<One, Zero, Zero>>, <<Zero, One, Zero>>>>,
            <<<<c35, s45, Zero>>, <<Neg(s45), c35, Zero>>, <<Zero, Zero, One>>>>,
            <<<<q(2, 7), q(3, 7), q(6, 7)>>, <<q(3, 7), q(-6, 7), q(2, 7)>>, <<q(6, 7), q(2, 7), q(-3, 7)>>>> }

\* the four-index tensors contracted with directions give the same numbers
Voi(i, j) == VoigtOf[i][j]
Weight(a) == IF a <= 3 THEN One ELSE Half
S4(S, i, j, k, m) == Mul(S[Voi(i, j)][Voi(k, m)], Mul(Weight(Voi(i, j)), Weight(Voi(k, m))))
Contract(T(_, _, _, _), a, b, c, d) ==
    Sum([x \in 1..81 |-> LET y == x - 1  i == 1 + (y % 3)  j == 1 + ((y \div 3) % 3)
                             k == 1 + ((y \div 9) % 3)  m == 1 + (y \div 27)
                         IN Mul(Mul(a[i], b[j]), Mul(Mul(c[k], d[m]), T(i, j, k, m)))])
Tensors ==
    steps > 1 \/
    LET cc == TLCEval(C)
        S == TLCEval(Inverse(cc))
        T(i, j, k, m) == S4(S, i, j, k, m)
        D(i, j, k, m) == cc[Voi(i, j)][Voi(k, m)]
        sc == MaxAbsM(S)
        e == <<<<One, Zero, Zero>>, <<Zero, One, Zero>>, <<Zero, Zero, One>>>>
    IN  \A f \in Frames :
          LET n == f[1]  m == f[2]
              g == Christoffel(cc, n)
          IN  /\ Eq(InvYoung(S, n), Contract(T, n, n, n, n), sc)
              /\ Eq(InvShear(S, n, m), Mul(I(4), Contract(T, n, m, n, m)), sc)
              /\ Eq(Lateral(S, n, m), Contract(T, n, n, m, m), sc)
              /\ Eq(LinComp(S, n), Mul(I(1000), Sum([k \in 1..3 |-> Contract(T, n, n, e[k], e[k])])), Mul(I(1000), sc))
              /\ \A i, j \in 1..3 : Eq(g[i][j], Contract(D, e[i], n, e[j], n), MaxAbsM(cc))

\* turning the crystal and the direction together changes nothing
Covariant ==
    LET cc == TLCEval(C)
        S == TLCEval(Inverse(cc))
        S0 == TLCEval(Inverse(C0))
        sc == MaxAbsM(S0)
        a == TLCEval(Averages(cc, S))
        a0 == TLCEval(Averages(C0, S0))
    IN  /\ \A i \in 1..3, j \in 1..4 : Near(a[i][j], a0[i][j], Eps(18), Abs(a0[i][j]))
        /\ Inertia(cc, MaxAbsM(cc)) = Inertia(C0, MaxAbsM(C0))
        /\ \A f \in Frames :
             LET n == MatVec(turn, f[1])  m == MatVec(turn, f[2])
                 g == TLCEval(Christoffel(cc, n))
                 g0 == TLCEval(Christoffel(C0, f[1]))
             IN  /\ Eq(InvYoung(S, n), InvYoung(S0, f[1]), sc)
                 /\ Eq(LinComp(S, n), LinComp(S0, f[1]), Mul(I(1000), sc))
                 /\ Eq(InvShear(S, n, m), InvShear(S0, f[1], f[2]), sc)
                 /\ Eq(Lateral(S, n, m), Lateral(S0, f[1], f[2]), sc)
                 /\ Eq(Sum(<<g[1][1], g[2][2], g[3][3]>>), Sum(<<g0[1][1], g0[2][2], g0[3][3]>>), MaxAbsM(C0))
                 /\ \A x \in {101, 403, 709, 1013, 1511, 2503, 3307} : Below(g, q(x, 10)) = Below(g0, q(x, 10))

\* reversal; a transverse quantity has period pi and its extremes are those of Perp
Transverse ==
    steps > 2 \/
    LET S == TLCEval(Inverse(C))
        sc == MaxAbsM(S)
        rev(v) == [i \in 1..3 |-> Neg(v[i])]
        at(f, x, y) == [i \in 1..3 |-> Add(Mul(x, f[2][i]), Mul(y, f[3][i]))]
    IN  \A f \in Frames :
          LET n == f[1]
              gr == TLCEval(ShearRange(S, n, f[2], f[3]))
              pr == TLCEval(PoissonRange(S, n, f[2], f[3]))
              gr2 == TLCEval(ShearRange(S, n, at(f, c35, s45), at(f, Neg(s45), c35)))
          IN  /\ Eq(InvYoung(S, n), InvYoung(S, rev(n)), sc) /\ Eq(InvShear(S, n, f[2]), InvShear(S, rev(n), f[2]), sc)
              /\ Eq(InvShear(S, n, f[2]), InvShear(S, n, rev(f[2])), sc)
              /\ Eq(InvShear(S, n, f[2]), InvShear(S, f[2], n), sc)
              /\ name = "unstable" \/
                 /\ Near(gr[1], gr2[1], Eps(20), gr[1]) /\ Near(gr[2], gr2[2], Eps(20), gr[2])
                 /\ \A d \in {<<One, Zero>>, <<Zero, One>>, <<c35, s45>>, <<s45, Neg(c35)>>, <<q(5, 13), q(12, 13)>>, <<q(-15, 17), q(8, 17)>>} :
                      LET m == at(f, d[1], d[2])
                          G == Shear(S, n, m)
                          p == Poisson(S, n, m)
                      IN  /\ Le(gr[1], Add(G, tol)) /\ Le(G, Add(gr[2], tol))
                          /\ Le(pr[1], Add(p, tol)) /\ Le(p, Add(pr[2], tol))

\* bounds of the averages; bounds of the directional moduli by them
Ordered ==
    name = "unstable" \/
    LET cc == TLCEval(C)
        a == TLCEval(Averages(cc, Inverse(cc)))
    IN  /\ Stable(cc)
        /\ \A j \in 1..3 : Le(a[2][j], Add(a[3][j], tol)) /\ Le(a[3][j], Add(a[1][j], tol))
        /\ Pos(a[2][1]) /\ Pos(a[2][3])
Unstable == name = "unstable" => ~Stable(C)
\* an isotropic matrix: every average and every direction gives the same moduli
Isotropic ==
    name = "isotropic" =>
    LET cc == TLCEval(C)
        S == TLCEval(Inverse(cc))
        a == TLCEval(Averages(cc, S))
        K == Div(I(500), I(3))
        G == I(100)
        rho == I(3000)
    IN  /\ \A i \in 1..3 : Eq(a[i][1], K, K) /\ Eq(a[i][3], G, G) /\ Eq(a[i][2], I(250), I(250)) /\ Eq(a[i][4], q(1, 4), One)
        /\ \A f \in Frames :
             /\ Eq(Young(S, f[1]), I(250), I(250)) /\ Eq(LinComp(S, f[1]), Two, Two)
             /\ Eq(Shear(S, f[1], f[2]), G, G) /\ Eq(Poisson(S, f[1], f[2]), q(1, 4), One)
             /\ LET g == Christoffel(cc, f[1]) IN
                Spectrum(g, <<Div(Mul(rho, Sq(VShear(G, rho))), I(1000)), Div(Mul(rho, Sq(VShear(G, rho))), I(1000)),
                              Div(Mul(rho, Sq(VPress(K, G, rho))), I(1000))>>, Eps(20))
Orthogonal == \A i, j \in 1..3 : Eq(DotV(turn[i], turn[j]), IF i = j THEN One ELSE Zero, One)
\* the polar description of a direction and of the perpendicular one
ASSUME \A a \in {<<1, 2, 3>>, <<-2, 5, 1>>, <<3, -1, 7>>, <<0, 0, 0>>} :
    LET t == q(a[1], 2)  p == q(a[2], 3)  x == q(a[3], 5)
        n == Dir(t, p)  m == Dir2(t, p, x)
    IN  Eq(DotV(n, n), One, One) /\ Eq(DotV(m, m), One, One) /\ Eq(DotV(n, m), Zero, One)
=============================================================================
