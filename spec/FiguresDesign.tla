--------------------------- MODULE FiguresDesign ---------------------------
(***************************************************************************)
(* One or two runs in a process.  A run draws its figures panel by panel   *)
(* on the figure opened for them; Values are abstract sections: for every  *)
(* column a number.  RadiusFrom says which columns bound the radius: "all" *)
(* or only the one that is usually the largest; Reuse: panels of an earlier run are kept.  *)
(***************************************************************************)
EXTENDS Figures, TLC, Json
CONSTANTS RadiusFrom, Reuse, MaxRuns
VARIABLES runs, k, fig, pan, open, saved
vars == <<runs, k, fig, pan, open, saved>>
\* value of a column of run n: distinct for every run, property, plane and column
Signs(c, q) == IF q = "Nu" /\ c.crystal = "auxetic" THEN <<-5, 0, -5>>
               ELSE IF q = "LC" /\ c.crystal = "shrinking" THEN <<0, 7>>
               ELSE [x \in 1..Len(Curves(q)) |-> IF q = "LC" THEN IF x = 1 THEN 5 ELSE 0
                                                 ELSE IF q = "Nu" THEN (IF x = 1 THEN 0 ELSE 3 * x) ELSE 3 * x]
Value(n, q, p, x) == LET s == Signs(runs[n], q)[x] IN IF s = 0 THEN 0 ELSE IF s < 0 THEN s ELSE s + n
Section(n, q, p) == [x \in 1..Len(Curves(q)) |-> <<n, q, p, x, Value(n, q, p, x)>>]
MaxOf(S) == CHOOSE m \in S : \A y \in S : y <= m
\* drawn a little larger than the largest value (in tenths)
Radius(sec) == LET v == [x \in 1..Len(sec) |-> sec[x][5]]
               IN  IF RadiusFrom = "all" THEN 11 * MaxOf({v[x] : x \in 1..Len(v)}) ELSE 11 * v[IF sec[1][2] = "LC" THEN 1 ELSE Len(v)]
Init == /\ runs \in UNION {[1..m -> Configs] : m \in 1..MaxRuns}
        /\ k = 1 /\ fig = 1 /\ pan = 1 /\ open = <<>> /\ saved = <<>>
Draw ==
    /\ k <= Len(runs) /\ fig <= Len(Due(runs[k])) /\ pan <= 3
    /\ LET q == Due(runs[k])[fig]
           sec == Section(k, q, Planes[pan])
       IN  open' = Append(open, [plane |-> Planes[pan], curves |-> sec, rmax |-> Radius(sec)])
    /\ pan' = pan + 1 /\ UNCHANGED <<runs, k, fig, saved>>
Save ==
    /\ k <= Len(runs) /\ fig <= Len(Due(runs[k])) /\ pan = 4
    /\ saved' = Append(saved, [run |-> k, prop |-> Due(runs[k])[fig], panels |-> open])
    /\ open' = IF Reuse THEN <<open[1]>> ELSE <<>>
    /\ pan' = IF Reuse THEN 2 ELSE 1
    /\ fig' = fig + 1 /\ UNCHANGED <<runs, k>>
NextRun ==
    /\ k <= Len(runs) /\ fig > Len(Due(runs[k]))
    /\ k' = k + 1 /\ fig' = 1 /\ UNCHANGED <<runs, pan, open, saved>>
Next == Draw \/ Save \/ NextRun
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* every figure saved shows the sections of its own run and property
Own == \A f \in 1..Len(saved) : LET s == saved[f] IN
         /\ Len(s.panels) = 3
         /\ \A p \in 1..3 : s.panels[p].plane = Planes[p] /\ s.panels[p].curves = Section(s.run, s.prop, Planes[p])
\* and nothing lies outside of the visible radius
Visible == \A f \in 1..Len(saved) : \A p \in 1..Len(saved[f].panels) : LET a == saved[f].panels[p] IN
         \A x \in 1..Len(a.curves) : 10 * a.curves[x][5] <= a.rmax
Complete == k > Len(runs) => \A n \in 1..Len(runs) :
         SelectSeq(saved, LAMBDA s : s.run = n) # <<>> <=> Due(runs[n]) # <<>>
Ends == <>(k > Len(runs))
Emit == (k = 1 /\ fig = 1 /\ pan = 1) => PrintT("VQSC " \o ToJson([runs |-> runs]))
=============================================================================
