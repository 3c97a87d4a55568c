--------------------------- MODULE GeneratorTrace ---------------------------
(***************************************************************************)
(* C02: input generators.  A line is a session: the kinds of things in the *)
(* directory before it and the runs with what was observed of each:        *)
(* what every name held before and after (content        *)
(* identifiers), what the classes generate from the same files, and the    *)
(* job name a reader finds.                                                *)
(***************************************************************************)
EXTENDS GeneratorSession, Verdict
VARIABLE l
At(f, n) == IF n \in DOMAIN f THEN f[n] ELSE "none"
RunOf(x) == [cmd |-> x.cmd, stem |-> x.stem, ext |-> x.ext, list |-> x.list, names |-> x.names, second |-> x.second, interface |-> x.interface, ref |-> x.ref,
             out |-> x.out, place |-> x.place, usage |-> x.usage, title |-> x.title]
JudgeRun(i, disk, x) ==
    LET r == TLCEval(RunOf(x))
        o == TLCEval(Outcome(disk, r))
        t == Target(r)
    IN  /\ Say(i, "no-crash", x.crash = "")
        /\ Say(i, "error-shown", (o \in Errors) = x.error)
        /\ Say(i, "ends", (o = "written" => x.code = 0) /\ (o = "aborted" => x.code # 0))
        /\ Say(i, "asks", x.asked = (o \in {"written", "aborted"}))
        /\ Say(i, "sources-kept", \A n \in Sources(r) : At(x.after, n) = At(x.before, n))
        /\ Say(i, "nothing-else", \A n \in (DOMAIN x.before \cup DOMAIN x.after) \ {t} : At(x.after, n) = At(x.before, n))
        /\ Say(i, "no-files", o # "written" => x.after = x.before)
        /\ Say(i, "written", o = "written" => At(x.after, t) # "none" /\ At(x.after, t) = x.ref0)
        /\ Say(i, "job", o = "written" => x.job = Job(r, x.typed))
RECURSIVE Fold(_, _, _, _)
Fold(i, disk, xs, k) ==
    IF k > Len(xs) THEN TRUE
    ELSE /\ Say(i, "history", k = 1 \/ xs[k].before = xs[k - 1].after)
         /\ JudgeRun(i, disk, xs[k])
         /\ Fold(i, TLCEval(After(disk, RunOf(xs[k]))), xs, k + 1)
Judge(i) == Fold(i, Trace[i].pre, Trace[i].steps, 1)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
