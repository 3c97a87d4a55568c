---------------------------- MODULE ExportSession ----------------------------
(***************************************************************************)
(* The export of results as a dialogue over the files of a directory.      *)
(* Files have names "d_k" (the default name for dataset k) and free names; *)
(* the content of a file is "" (no file), "old" (as before the session) or *)
(* the dataset it holds.  The machine consumes the answers of the user.    *)
(***************************************************************************)
EXTENDS Integers, Sequences
Default(k) == "d_" \o k
Open(files, offered) == [phase |-> "select", sel |-> "", target |-> "", files |-> files, offered |-> offered, asked |-> {}]
Yes(a) == a = "y"
No(a) == a \in {"n", "enter"}
Store(s) == [s EXCEPT !.files[s.target] = s.sel, !.phase = "more"]
\* a file that is there is replaced only after a question about that file
Target(s, n) == LET t == [s EXCEPT !.target = n]
                IN  IF s.files[n] = "" THEN Store(t) ELSE [t EXCEPT !.phase = "overwrite", !.asked = @ \cup {n}]
Step(s, a) ==
    CASE s.phase = "select" -> IF a \in s.offered THEN Target([s EXCEPT !.sel = a], Default(a)) ELSE s
      [] s.phase = "overwrite" -> IF Yes(a) THEN Store(s) ELSE IF No(a) THEN [s EXCEPT !.phase = "name"] ELSE s
      [] s.phase = "name" -> IF a \in DOMAIN s.files THEN Target(s, a) ELSE s
      [] s.phase = "more" -> IF Yes(a) THEN [s EXCEPT !.phase = "select"] ELSE IF No(a) THEN [s EXCEPT !.phase = "end"] ELSE s
      [] OTHER -> s
RECURSIVE Play(_, _, _)
Play(s, as, k) == IF k > Len(as) THEN s ELSE Play(Step(s, as[k]), as, k + 1)

(* What is a result file: shapes of files, and the command they are for.   *)
Commands == {"ha", "qha", "soec", "seismic"}
Shapes == {"text", "empty", "directory", "truncated", "noinfo", "nodata", "nounit", "group", "nopolar"} \cup Commands
Accepted(command, shape) == command = shape
=============================================================================
