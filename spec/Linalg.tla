------------------------------- MODULE Linalg -------------------------------
(***************************************************************************)
(* Small dense linear algebra over Real: matrices are sequences of rows.   *)
(***************************************************************************)
EXTENDS Real, TLC

MatVec(A, x) == TLCEval([i \in 1..Len(A) |-> Dot(A[i], x)])
Transp(A) == TLCEval([j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])
\* A * B with the rows of Bt = transpose of B
MatMulT(A, Bt) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(Bt) |-> Dot(A[i], Bt[j])]])
MatMul(A, B) == MatMulT(A, Transp(B))
VAdd(x, y) == [i \in 1..Len(x) |-> Add(x[i], y[i])]
VSub(x, y) == [i \in 1..Len(x) |-> Sub(x[i], y[i])]
VScale(a, x) == [i \in 1..Len(x) |-> Mul(a, x[i])]
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]]
MaxAbsM(A) == MaxAbs([i \in 1..Len(A) |-> MaxAbs(A[i])])

RECURSIVE PivotRow(_, _, _, _)
PivotRow(A, k, best, i) ==
    IF i > Len(A) THEN best
    ELSE PivotRow(A, k, IF Gt(Abs(A[i][k]), Abs(A[best][k])) THEN i ELSE best, i + 1)
RECURSIVE GJ(_, _)
\* Gauss-Jordan elimination of the augmented rows A from column k on
GJ(A, k) ==
    IF k > Len(A) THEN A
    ELSE LET r == PivotRow(A, k, k, k + 1)
             p == A[r][k]
             pr == TLCEval([j \in 1..Len(A[r]) |-> Div(A[r][j], p)])
             B == TLCEval([i \in 1..Len(A) |->
                    IF i = k THEN pr
                    ELSE LET row == IF i = r THEN A[k] ELSE A[i]
                         IN  TLCEval([j \in 1..Len(row) |-> Sub(row[j], Mul(row[k], pr[j]))])])
         IN  GJ(B, k + 1)
\* inverse (NaN entries when singular)
Inverse(A) ==
    LET n == Len(A)
        G == GJ(TLCEval([i \in 1..n |-> A[i] \o Ident(n)[i]]), 1)
    IN  TLCEval([i \in 1..n |-> SubSeq(G[i], n + 1, 2 * n)])
\* solution of A x = b
Solve(A, b) ==
    LET n == Len(A)
        G == GJ(TLCEval([i \in 1..n |-> A[i] \o <<b[i]>>]), 1)
    IN  [i \in 1..n |-> G[i][n + 1]]

\* least squares: the matrix M with coefficients = M y for the design rows B
LsqMatrix(B) == LET Bt == Transp(B) IN MatMulT(Inverse(MatMulT(Bt, Bt)), B)

-----------------------------------------------------------------------------
(* Polynomials fitted to (xs, ys) in the variable u = (x - c)/h            *)
Monomials(u, d) == [k \in 1..(d + 1) |-> Pow(u, k - 1)]
Centre(xs) == Div(Sum(xs), I(Len(xs)))
HalfSpan(xs) == LET c == Centre(xs) IN MaxAbs([i \in 1..Len(xs) |-> Sub(xs[i], c)])
\* a frame holds all that depends on the abscissae only
Frame(xs, d) ==
    LET c == Centre(xs)
        h == HalfSpan(xs)
    IN  [c |-> c, h |-> h, d |-> d,
         M |-> LsqMatrix([i \in 1..Len(xs) |-> Monomials(Div(Sub(xs[i], c), h), d)])]
Coefs(fm, ys) == MatVec(fm.M, ys)
PDer(cs) == IF Len(cs) <= 1 THEN <<Zero>> ELSE [k \in 1..(Len(cs) - 1) |-> Mul(I(k), cs[k + 1])]
EvalFit(fm, cs, x) == Poly(cs, Div(Sub(x, fm.c), fm.h))
\* n-th derivative with respect to x
RECURSIVE DerN(_, _)
DerN(cs, n) == IF n = 0 THEN cs ELSE DerN(TLCEval(PDer(cs)), n - 1)
EvalDer(fm, cs, x, n) == Div(Poly(DerN(cs, n), Div(Sub(x, fm.c), fm.h)), Pow(fm.h, n))
=============================================================================
