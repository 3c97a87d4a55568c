---------------------------- MODULE CommandTrace ----------------------------
(***************************************************************************)
(* C01: command lines.  A line is a session: the kinds of things in the    *)
(* directory before it and the runs with what was observed of each: what   *)
(* every name held before and after (content identifiers), the lines shown *)
(* and logged (as numbers), a twin run that differs in the quiet flag and  *)
(* found no log, and the data of the same analysis made with the classes.  *)
(***************************************************************************)
EXTENDS CommandSession, Real, Verdict
VARIABLE l
At(f, n) == IF n \in DOMAIN f THEN f[n] ELSE "none"
\* ranges: minimum, maximum, step; a temperature below the absolute zero is no condition
Kelvin(x, tu) == IF tu = "C" THEN Add(x, Q(27315, 100)) ELSE x
RangeOk(g) == LET v == g.v IN
    /\ \A k \in 1..3 : v[k][1] # 2
    /\ v[3][1] # 0
    /\ Le(Zero, Div(Sub(v[2], v[1]), v[3]))
    /\ g.what = "temperature" => Le(Zero, Kelvin(v[1], g.unit)) /\ (v[3][1] = -1 => Le(Zero, Kelvin(v[2], g.unit)))
\* small is obtained from big by leaving lines out
RECURSIVE Sub1(_, _, _, _)
Sub1(s, b, i, j) == IF i > Len(s) THEN TRUE ELSE IF j > Len(b) THEN FALSE
                    ELSE IF s[i] = b[j] THEN Sub1(s, b, i + 1, j + 1) ELSE Sub1(s, b, i, j + 1)
Bads(as) == CHOOSE n \in 0..Len(as) : (\A k \in 1..n : as[k] = "bad") /\ (n = Len(as) \/ as[n + 1] # "bad")
RunOf(x) == [cmd |-> x.cmd, stem |-> x.stem, ext |-> x.ext, out |-> x.out, place |-> x.place, usage |-> x.usage, answers |-> x.answers,
             ranges |-> IF \A k \in 1..Len(x.ranges) : RangeOk(x.ranges[k]) THEN "ok" ELSE "bad", able |-> x.able,
             polar |-> "polar" \in DOMAIN x.opts, plot |-> x.plot]
JudgeRun(i, disk, x) ==
    LET r == TLCEval(RunOf(x))
        o == TLCEval(Outcome(disk, r))
        log == LogName(r)
        res == ResultName(r)
        figures == IF Draws(o, r) THEN {FigureName(r, q) : q \in Figures(r) \ (IF x.dense THEN {} ELSE {"waves"})} ELSE {}
    IN  /\ Say(i, "no-crash", x.crash = "" /\ x.twin.crash = "")
        /\ Say(i, "settings", x.refset = Settings(r.cmd, x.opts))
        /\ Say(i, "error-shown", (o \in Errors) = x.error)
        /\ Say(i, "ends", o \in {"stored", "kept", "done"} => x.code = 0)
        /\ Say(i, "asks", x.questions = (IF Asks(disk, r) THEN 1 + Bads(r.answers) ELSE 0))
        \* files
        /\ Say(i, "input-kept", At(x.after, Input(r)) = At(x.before, Input(r)))
        /\ Say(i, "nothing-else", \A n \in (DOMAIN x.before \cup DOMAIN x.after) \ ({log, res} \cup figures) : At(x.after, n) = At(x.before, n))
        /\ Say(i, "figures", \A n \in figures : At(x.after, n) # "none" /\ At(x.after, n) # At(x.before, n))
        /\ Say(i, "no-files", ~Logged(o) => x.after = x.before)
        /\ Say(i, "result-kept", (r.cmd # "eosfit" /\ o # "stored") => At(x.after, res) = At(x.before, res))
        \* the log
        /\ Say(i, "log-written", Logged(o) => At(x.after, log) # "none" /\ x.logged # <<>>)
        /\ Say(i, "shown-is-logged", (Logged(o) /\ r.cmd # "eosfit") => Sub1(x.shown, x.logged, 1, 1))
        /\ Say(i, "quiet-logs-the-same", (Logged(o) /\ r.cmd # "eosfit") => x.twin.logged = x.logged)
        /\ Say(i, "quiet-shows-less", (o \in {"stored", "kept"}) => LET quiet == IF x.quiet THEN x.shown ELSE x.twin.shown
                                                                     loud == IF x.quiet THEN x.twin.shown ELSE x.shown
                                                                 IN  Sub1(quiet, loud, 1, 1) /\ Len(quiet) * 2 < Len(loud))
        \* the result
        /\ Say(i, "result-written", o = "stored" => At(x.after, res) # "none")
        /\ Say(i, "result-is-requested", o = "stored" => x.stored = x.ref)
        /\ Say(i, "quiet-stores-the-same", o = "stored" => x.twin.stored = x.ref)
RECURSIVE Fold(_, _, _, _)
Fold(i, disk, xs, k) ==
    IF k > Len(xs) THEN TRUE
    ELSE /\ Say(i, "history", k = 1 \/ xs[k].before = xs[k - 1].after)
         /\ JudgeRun(i, disk, xs[k])
         /\ Fold(i, TLCEval(After(disk, RunOf(xs[k]))), xs, k + 1)
Judge(i) == Fold(i, Trace[i].pre, Trace[i].steps, 1)
Init == l \in Starts /\ Judge(l)
Next == l + Stride <= NLines /\ l' = l + Stride /\ Judge(l')
Spec == Init /\ [][Next]_l
=============================================================================
