---------------------------- MODULE EosSessionTrace ----------------------------
(***************************************************************************)
(* E03: one interactive session of the program, replayed on the machine of *)
(* EosSession.tla.  The program's log must contain exactly the reports of  *)
(* the machine; the fits of these reports, requested afresh (same data,    *)
(* equation, start, fixed parameters and weights), give the printed        *)
(* numbers; the values proposed on the screen are those in force.          *)
(***************************************************************************)
EXTENDS EosSession, Real, Verdict
VARIABLE l
Set(q) == {q[j] : j \in DOMAIN q}
ImpliedIdx(o) == CASE o = 2 -> {2, 3} [] o = 3 -> {3} [] OTHER -> {}
Labels(sel) == IF sel = "v" THEN <<"K0", "K'", "K''", "V0">>
               ELSE <<"M0(" \o sel \o ")", "M'(" \o sel \o ")", "M''(" \o sel \o ")", sel \o "0">>
HalfDigit == Q(51, 10000000)
Printed(a, b) == \/ Nan(a) /\ Nan(b)
                 \/ ~Nan(a) /\ ~Nan(b) /\ Le(Abs(Sub(a, b)), Add(HalfDigit, Mul(Eps(9), Abs(b))))
AllPrinted(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Printed(x[k], y[k])
Report1(i, r, q, g) ==   \* r: report of the machine, q: recorded request, g: recorded report
    /\ Say(i, "request", /\ g.sel = r.sel /\ g.f = r.f /\ g.o = r.o /\ g.wp = r.wp /\ g.wv = r.wv)
    /\ Say(i, "marks", /\ \A j \in 1..4 : g.fixed[j] = (r.fix[j] = 0)
                       /\ \A j \in 1..4 : g.implied[j] = (j \in ImpliedIdx(r.o)))
    /\ Say(i, "labels", g.labels = Labels(r.sel))
    /\ Say(i, "same-request-replayed", q.start = r.start /\ q.sel = r.sel /\ q.f = r.f /\ q.o = r.o
                                       /\ q.fix = r.fix /\ q.wp = r.wp /\ q.wv = r.wv)
    /\ Say(i, "parameters", AllPrinted(g.beta, q.beta))
    /\ Say(i, "errors", AllPrinted(g.sd, q.sd))
    /\ Say(i, "data-column", AllPrinted(g.x, q.x) /\ AllPrinted(g.p, q.p))
    /\ Say(i, "fitted-columns", AllPrinted(g.dx, q.dx) /\ AllPrinted(g.y, q.y) /\ AllPrinted(g.dy, q.dy))
Judge(i) ==
    LET e == Trace[i]
        s0 == Open(Set(e.avail), Set(e.sig))
        s == TLCEval(Play(s0, e.answers, 1))
        shown == TLCEval(Shown(s0, e.answers, 1))
    IN  /\ Say(i, "session-ends", s.phase = "end" /\ e.exit = 0 /\ e.finished)
        /\ Say(i, "log-on-screen", e.logged)
        /\ Say(i, "number-of-reports", Len(s.reports) = Len(e.reports))
        /\ Len(s.reports) = Len(e.reports) => \A k \in 1..Len(s.reports) : Report1(i, s.reports[k], e.requests[k], e.reports[k])
        /\ Say(i, "values-shown", /\ Len(shown) = Len(e.shown)
                                  /\ \A k \in 1..Len(shown) : e.inforce[k].start = shown[k].start /\ AllPrinted(e.shown[k], e.inforce[k].values))
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
