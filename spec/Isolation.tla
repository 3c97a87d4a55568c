----------------------------- MODULE Isolation -----------------------------
(***************************************************************************)
(* Objects of the package living in one process.  Five classes of kinds:   *)
(*   reader      reads a file when it is created, may load another;        *)
(*   creator     loads outputs of another code, then writes an input file; *)
(*   calculator  loads an input, runs, then stores its results;            *)
(*   exporter    loads a result file, then writes a table;                 *)
(*   physical    a crystal, an equation of state, ... : created, queried.  *)
(* The state of the system is the history of every object: the operations  *)
(* done on it.  All an object exposes is a function of its own history:    *)
(* here, as nothing else is assumed about the kinds, the history itself.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Classes == {"reader", "creator", "calculator", "exporter", "physical"}
Inputs == {"one", "two", "bad"}
Good == {"one", "two"}

\* what the last operations leave: nothing, created, loaded, done
Stage(cls, h) ==
    IF h = <<>> THEN "absent"
    ELSE LET o == h[Len(h)] IN
         IF o.op = "new" THEN "made"
         ELSE IF o.op = "load" THEN (IF o.input = "bad" THEN "made" ELSE "loaded")
         ELSE IF o.op = "run" THEN "ran" ELSE (IF cls = "calculator" THEN "ran" ELSE "loaded")

Op(op, input) == [op |-> op, input |-> input]

\* the operations an object accepts after a history
Can(cls, h) ==
    LET s == Stage(cls, h) IN
    IF s = "absent" THEN
        {Op("new", x) : x \in (IF cls = "reader" THEN Inputs ELSE IF cls \in {"calculator", "physical"} THEN Good ELSE {"one"})}
    ELSE CASE cls = "reader" -> {Op("load", x) : x \in Inputs}
           [] cls = "physical" -> {Op("run", x) : x \in Good}
           [] cls = "creator" \/ cls = "exporter" ->
                {Op("load", x) : x \in Inputs} \cup (IF s = "loaded" THEN {Op("save", "one")} ELSE {})
           [] cls = "calculator" ->
                {Op("load", x) : x \in Inputs} \cup (IF s \in {"loaded", "ran"} THEN {Op("run", "one")} ELSE {})
                \cup (IF s = "ran" THEN {Op("save", "one")} ELSE {})

\* the history of object i in a sequence of steps [obj, op, input]
RECURSIVE OwnRec(_, _, _)
OwnRec(steps, i, n) ==
    IF n = 0 THEN <<>>
    ELSE LET r == OwnRec(steps, i, n - 1) IN
         IF steps[n].obj = i THEN Append(r, Op(steps[n].op, steps[n].input)) ELSE r
Own(steps, i, n) == OwnRec(steps, i, n)
=============================================================================
