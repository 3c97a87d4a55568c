------------------------------- MODULE EosReader -------------------------------
(***************************************************************************)
(* Reading an equation-of-state input file: a machine that consumes the    *)
(* lines.  A line is [kind, words, text, nums]: kind "skip" (blank or      *)
(* comment) or "line", its words in lower case, its text, and the values   *)
(* of its words when they are numbers.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Quantities == {"p", "v", "a", "b", "c", "sigmap", "sigmav", "sigmaa", "sigmab", "sigmac"}
Canon(w) == CASE w \in Quantities -> w
              [] w = "sigp" -> "sigmap" [] w = "sigv" -> "sigmav" [] w = "siga" -> "sigmaa"
              [] w = "sigb" -> "sigmab" [] w = "sigc" -> "sigmac" [] OTHER -> ""
Start == [mode |-> "top", job |-> "Unknown", cols |-> <<>>, rows |-> <<>>, error |-> ""]
Step(s, x) ==
    IF x.kind = "skip" \/ s.error # "" THEN s
    ELSE CASE s.mode = "title" -> [s EXCEPT !.mode = "top", !.job = x.text]
           [] s.mode = "cols" -> [s EXCEPT !.mode = "top", !.cols = [k \in 1..Len(x.words) |-> Canon(x.words[k])]]
           [] s.mode = "data" -> [s EXCEPT !.rows = Append(@, x.nums)]
           [] OTHER ->
                CASE x.words[1] = "job" -> [s EXCEPT !.mode = "title"]
                  [] x.words[1] = "format" -> [s EXCEPT !.mode = "cols"]
                  [] x.words[1] = "data" ->
                       IF ~\E k \in 1..Len(s.cols) : s.cols[k] # "" THEN [s EXCEPT !.error = "format"]
                       ELSE IF ~\E k \in 1..Len(s.cols) : s.cols[k] = "p" THEN [s EXCEPT !.error = "pressure"]
                       ELSE [s EXCEPT !.mode = "data"]
                  [] OTHER -> s
RECURSIVE Fold(_, _, _)
Fold(s, xs, k) == IF k > Len(xs) THEN s ELSE Fold(Step(s, xs[k]), xs, k + 1)
Read(xs) == Fold(Start, xs, 1)
\* columns of the result: quantity -> sequence of values
Declared(s) == {s.cols[k] : k \in {j \in 1..Len(s.cols) : s.cols[j] # ""}}
Index(s, q) == CHOOSE k \in 1..Len(s.cols) : s.cols[k] = q
Column(s, q) == [r \in 1..Len(s.rows) |-> s.rows[r][Index(s, q)]]
=============================================================================
