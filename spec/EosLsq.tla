------------------------------- MODULE EosLsq -------------------------------
(***************************************************************************)
(* The least squares energy equation of state through (Vs, ys) and the     *)
(* standard errors of its parameters <<E0, K, K', V0>>.                    *)
(***************************************************************************)
EXTENDS EosForms
\* one Gauss-Newton step in E0/KV0 and the logarithms of the others
LsqAt(form, Vs, ys, q) ==
    LET n == Len(Vs)
        hh == Eps(14)
        yref == Div(Sum(ys), I(n))
        f(p) == TLCEval([v \in 1..n |-> EV(form, p, Vs[v])])
        p0 == <<Zero, q[2], q[3], q[4]>>
        base == f(p0)
        col(k) == LET d == Mul(hh, Abs(p0[k]))
                      up == f([p0 EXCEPT ![k] = Add(@, d)])
                      dn == f([p0 EXCEPT ![k] = Sub(@, d)])
                  IN  TLCEval([v \in 1..n |-> Div(Sub(up[v], dn[v]), Mul(Two, hh))])
        kv == Mul(q[2], q[4])
        J == TLCEval(<<[v \in 1..n |-> kv], col(2), col(3), col(4)>>)
        r == TLCEval([v \in 1..n |-> Sub(Sub(ys[v], yref), base[v])])
        N == MatMulT(J, J)
        x == Solve(N, [k \in 1..4 |-> Dot(J[k], r)])
    IN  [x |-> x, N |-> N, kv |-> kv, r |-> r, J |-> J, yref |-> yref]
RECURSIVE LsqFrom(_, _, _, _, _)
LsqFrom(form, Vs, ys, q, n) ==
    LET s == TLCEval(LsqAt(form, Vs, ys, q))
        nq == TLCEval(<<Add(s.yref, Mul(s.kv, s.x[1])), Mul(q[2], Add(One, s.x[2])), Mul(q[3], Add(One, s.x[3])),
                        Mul(q[4], Add(One, s.x[4]))>>)
        small == \A k \in 2..4 : Le(Abs(s.x[k]), Eps(9))
    IN  IF n = 0 THEN [ok |-> FALSE]
        ELSE IF ~small THEN LsqFrom(form, Vs, ys, nq, n - 1)
        ELSE LET m == Len(Vs)
                 Ni == Inverse(s.N)
                 res == TLCEval([v \in 1..m |-> Sub(s.r[v], Sum([k \in 1..4 |-> Mul(s.J[k][v], s.x[k])]))])
                 s2 == IF m > 4 THEN Div(Sum([v \in 1..m |-> Sq(res[v])]), I(m - 4)) ELSE Zero
                 sd(k, scale) == Mul(Abs(scale), Sqrt(Mul(s2, Ni[k][k])))
             IN  [ok |-> TRUE, p |-> nq, determined |-> m > 4,
                  s |-> TLCEval(<<sd(1, s.kv), sd(2, nq[2]), sd(3, nq[3]), sd(4, nq[4])>>)]
Lsq(form, Vs, ys, start) == LsqFrom(form, Vs, ys, start, 25)
=============================================================================
