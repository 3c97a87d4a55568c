---------------------------- MODULE PhononOutputTrace ----------------------------
(***************************************************************************)
(* I01: generated input files of the harmonic analyses, read back.  A line *)
(* holds the listed outputs as printed sections (numbers as printed), the  *)
(* reference, the error shown, whether a file was written and what the     *)
(* reader of the generated file exposes.                                   *)
(***************************************************************************)
EXTENDS PhononOutput, Real, Verdict
VARIABLE l
HalfUnit(decimals) == Div(Half, Pow(I(10), decimals))
Within(a, b, d) == Le(Abs(Sub(a, b)), d)
Tol(decimals, x) == Add(Mul(HalfUnit(decimals), Q(1001, 1000)), Mul(Eps(16), Abs(x)))
ToCm == Div(Pow(I(10), 10), I(299792458))              \* THz to 1/cm
Det(m) == Add(Sub(Mul(m[1][1], Sub(Mul(m[2][2], m[3][3]), Mul(m[2][3], m[3][2]))),
                  Mul(m[1][2], Sub(Mul(m[2][1], m[3][3]), Mul(m[2][3], m[3][1])))),
              Mul(m[1][3], Sub(Mul(m[2][1], m[3][2]), Mul(m[2][2], m[3][1]))))
Volume(c) == Div(Abs(Det(c.lattice)), I(c.k))
Num(interface, f) == IF interface = "phonopy" THEN Mul(f, ToCm) ELSE f
Judge(i) ==
    LET e == Trace[i]
        g == TLCEval(Generate(e.interface, e.docs, e.ref))
    IN  /\ Say(i, "no-crash", e.crash = "")
        /\ IF ~g.ok THEN Say(i, "refused", e.error # "" \/ e.crash # "") /\ Say(i, "no-file", ~e.written)
           ELSE /\ Say(i, "generated", e.error = "" /\ e.written)
                /\ e.written => Say(i, "readable", e.completed)
                /\ (e.written /\ e.completed) =>
                   LET n == Len(g.cells)
                   IN
                   /\ Say(i, "title", e.job = e.title)
                   /\ Say(i, "atoms", e.natom = g.natom)
                   /\ Say(i, "supercell", e.dim = g.dim)
                   /\ Say(i, "volumes", Len(e.V) = n /\ \A k \in 1..n : LET v == TLCEval(Volume(g.cells[k])) IN Within(e.V[k], v, Tol(8, v)))
                   /\ Say(i, "energies", Len(e.E) = n /\ \A k \in 1..n :
                             LET x == TLCEval(Div(g.energies[k].e, I(g.energies[k].k))) IN
                             Within(e.E[k], x, Mul(Eps(12), Abs(x))))
                   /\ Say(i, "q-points", Len(e.q) = g.nq /\ \A k \in 1..g.nq : \A a \in 1..3 :
                             LET x == TLCEval(IF ~g.given THEN Zero ELSE IF e.interface = "crystal" THEN Div(g.q[k].c[a], g.shrink[a]) ELSE g.q[k].c[a])
                             IN  Within(e.q[k][a], x, Tol(7, x)))
                   /\ Say(i, "weights", Len(e.w) = g.nq /\ \A k \in 1..g.nq : e.w[k] = (IF ~g.given THEN One ELSE g.q[k].w))
                   /\ Say(i, "frequencies", Len(e.f) = g.nq /\ \A k \in 1..g.nq :
                             /\ Len(e.f[k]) = 3 * g.natom
                             /\ \A m \in 1..(3 * g.natom) :
                                   /\ Len(e.f[k][m]) = n
                                   /\ \A v \in 1..n : LET x == TLCEval(Num(e.interface, g.freq[k][m][v])) IN Within(e.f[k][m][v], x, Tol(10, x)))
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
