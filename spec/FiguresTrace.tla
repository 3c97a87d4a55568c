---------------------------- MODULE FiguresTrace ----------------------------
(***************************************************************************)
(* P02: a line is a run (the figures it announced, wrote and drew) or a    *)
(* panel of a figure with the section stored for it.                       *)
(***************************************************************************)
EXTENDS Figures, Real, Verdict
VARIABLE l
JudgeRun(i, e) ==
    LET due == Due(e.c)
        names == [x \in 1..Len(due) |-> e.base \o "_" \o due[x] \o ".png"]
        want == {names[x] : x \in 1..Len(due)}
    IN  /\ Say(i, "figures-written", {e.pngs[x] : x \in 1..Len(e.pngs)} = want)
        /\ Say(i, "figures-announced", e.announced = names)
        /\ Say(i, "figures-drawn", {e.drawn[x] : x \in 1..Len(e.drawn)} = want /\ Len(e.drawn) = Len(due))
        /\ Say(i, "resolution", \A x \in 1..Len(e.size) : LET s == e.size[x] IN
               \* a pixel more or less
               /\ Le(Abs(Sub(s.px, Mul(s.inch, e.dpi))), Q(3, 2)) /\ Le(Abs(Sub(s.py, Mul(s.inchy, e.dpi))), Q(3, 2)))
        /\ Say(i, "three-panels", \A x \in 1..Len(e.panels) : LET p == e.panels[x] IN
               p.labels = <<Title(p.prop) \o " (xy)", Title(p.prop) \o " (xz)", Title(p.prop) \o " (yz)">>)
JudgePanel(i, e) ==
    LET names == Curves(e.prop)
        shape == Len(e.curves) = Len(names) /\ \A x \in 1..Len(e.curves) :
                   /\ Len(e.curves[x].r) = Len(e.rows) /\ Len(e.curves[x].a) = Len(e.rows) /\ e.curves[x].n = e.n
    IN  /\ Say(i, "projection", e.projection = "polar" /\ e.scale = "linear")
        /\ Say(i, "curves", shape)
        /\ Say(i, "legend", e.legend = (IF e.prop = "E" THEN <<>> ELSE names))
        /\ shape => \A x \in 1..Len(names) : LET c == e.curves[x]
                                                 col == CHOOSE y \in 1..Len(names) : names[y] = names[x] IN
             /\ Say(i, "curve-named", e.prop = "E" \/ c.name = names[x])
             /\ Say(i, "curve-angles", \A k \in 1..Len(e.rows) : Near(Mul(c.a[k], I(180)), Mul(e.rows[k][1], Pi), Eps(9), One))
             /\ Say(i, "curve-values", \A k \in 1..Len(e.rows) : Near(c.r[k], e.rows[k][col + 1], Eps(9), Abs(e.rows[k][col + 1])))
             /\ Say(i, "curve-visible", Le(e.rmin, Add(c.low, Mul(Eps(9), Abs(c.low)))) /\ Le(c.high, Add(e.rmax, Mul(Eps(9), Abs(e.rmax)))))
Judge(i) == LET e == Trace[i] IN IF e.kind = "run" THEN JudgeRun(i, e) ELSE JudgePanel(i, e)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
