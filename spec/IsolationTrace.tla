--------------------------- MODULE IsolationTrace ---------------------------
(***************************************************************************)
(* A line is one process in which several objects lived.                   *)
(*   kinds   class of each object                                          *)
(*   steps   [obj, op, input, view, reply]: the operation and, after it,   *)
(*           what every object exposes (view[i]: number of the content,    *)
(*           0 when the object does not exist yet) and what the operation  *)
(*           gave back (value, text shown, files written)                  *)
(*   alone   alone[i][n] = [view, reply] of object i after its n-th own    *)
(*           operation in a process where it was the only one              *)
(*   args    contents of what the caller passed, before and after          *)
(* Contents have the same number iff they are the same.                    *)
(***************************************************************************)
EXTENDS Isolation, Verdict
VARIABLE l

Allowed(e) == \A n \in 1..Len(e.steps) :
    LET s == e.steps[n] IN
    Op(s.op, s.input) \in Can(e.kinds[s.obj], Own(e.steps, s.obj, n - 1))

Count(e, i, n) == Len(Own(e.steps, i, n))

Expected(e, i, n) == IF Count(e, i, n) = 0 THEN 0 ELSE e.alone[i][Count(e, i, n)].view

\* the object of the step itself
OwnView(e) == \A n \in 1..Len(e.steps) : LET i == e.steps[n].obj IN
    e.steps[n].view[i] = Expected(e, i, n)
Reply(e) == \A n \in 1..Len(e.steps) : LET i == e.steps[n].obj IN
    e.steps[n].reply = e.alone[i][Count(e, i, n)].reply
\* a new object
Fresh(e) == \A n \in 1..Len(e.steps) : LET i == e.steps[n].obj IN
    e.steps[n].op = "new" => e.steps[n].view[i] = e.alone[i][1].view
\* the others
Others(e) == \A n \in 1..Len(e.steps) : \A i \in 1..Len(e.kinds) :
    i # e.steps[n].obj => e.steps[n].view[i] = Expected(e, i, n)
Arguments(e) == \A a \in 1..Len(e.args) : e.args[a].before = e.args[a].after

Judge(i) == LET e == Trace[i] IN
    /\ Say(i, "history-is-one-of-the-model", Allowed(e))
    /\ Say(i, "new-object-starts-from-the-defaults", Fresh(e))
    /\ Say(i, "object-exposes-its-own-history", OwnView(e))
    /\ Say(i, "answer-depends-on-own-history", Reply(e))
    /\ Say(i, "others-are-untouched", Others(e))
    /\ Say(i, "arguments-are-untouched", Arguments(e))

Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
