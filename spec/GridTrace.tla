----------------------------- MODULE GridTrace -----------------------------
EXTENDS Real, Verdict
VARIABLE l
NValues(a, b, c) == IF b < a THEN 0 ELSE (b - a) \div c + 1
\* lo, hi, st in units of 10^-k
SameGrid(e, g) ==
    LET n == NValues(e.lo, e.hi, e.st)
        u == Pow(I(10), -e.k)
        sc == Mul(I(MaxI(1, MaxI(e.hi, -e.lo))), u)
    IN  /\ Len(g) = n
        /\ \A j \in 1..n : Near(g[j], Mul(I(e.lo + (j - 1) * e.st), u), Eps(12), sc)
Judge(i) ==
    LET e == Trace[i]
    IN  CASE e.ev = "grid" -> Say(i, e.what \o "-grid", SameGrid(e, e.grid))
          [] e.ev = "saved" -> /\ Say(i, "saved-" \o e.what \o "-grid", SameGrid(e, e.grid))
                               /\ Say(i, "one-row-per-" \o e.what, \A s \in DOMAIN e.rows : e.rows[s] = NValues(e.lo, e.hi, e.st))
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
