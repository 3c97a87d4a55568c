--------------------------- MODULE CommandSession ---------------------------
(***************************************************************************)
(* The calculation commands as transitions of the files of one directory.  *)
(* A disk maps names to the kind of thing stored there.  A run is a record *)
(*   cmd, stem, ext   the command and its input file                       *)
(*   out, place       the requested base name ("" : none) and whether its  *)
(*                    folder is there ("here", "missing")                  *)
(*   usage            "" or what is wrong with the command line itself     *)
(*   ranges           "ok" or "bad": the requested temperatures/pressures  *)
(*   able             the analysis of this input can be completed          *)
(*   polar, plot      (soec) sections and their figures                    *)
(*   answers          what is typed                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences
Commands == {"ha", "qha", "soec", "eosfit"}
Suffix == [ha |-> "_HA", qha |-> "_QHA", soec |-> "_SOEC", eosfit |-> ""]
Reads == [ha |-> {"phonons", "few"}, qha |-> {"phonons", "few"}, soec |-> {"elastic", "unstable", "singular"}, eosfit |-> {"pv"}]
Input(r) == r.stem \o r.ext
Base(r) == IF r.out = "" THEN r.stem \o Suffix[r.cmd] ELSE r.out
LogName(r) == Base(r) \o (IF r.cmd = "eosfit" THEN ".log" ELSE ".txt")
ResultName(r) == Base(r) \o ".hdf5"
Targets(r) == IF r.cmd = "eosfit" THEN {LogName(r)} ELSE {LogName(r), ResultName(r)}
Has1(disk, n) == n \in DOMAIN disk
\* output names that cannot be used: the input itself, a directory, a missing folder
Blocked(disk, r) == r.place = "missing" \/ \E t \in Targets(r) : Has1(disk, t) /\ (disk[t] = "dir" \/ t = Input(r))
\* the first answer that is one
RECURSIVE Answer(_, _)
Answer(as, k) == IF k > Len(as) THEN "eof" ELSE IF as[k] = "bad" THEN Answer(as, k + 1) ELSE as[k]
Ready(disk, r) == /\ r.usage = "" /\ Has1(disk, Input(r)) /\ ~Blocked(disk, r)
                  /\ r.ranges = "ok" /\ disk[Input(r)] \in Reads[r.cmd] /\ r.able
Asks(disk, r) == Ready(disk, r) /\ r.cmd # "eosfit" /\ Has1(disk, ResultName(r))
Outcome(disk, r) ==
    CASE r.usage # "" \/ ~Has1(disk, Input(r)) -> "usage"
      [] Blocked(disk, r) -> "blocked"
      [] r.ranges # "ok" \/ disk[Input(r)] \notin Reads[r.cmd] -> "refused"
      [] ~r.able -> "failed"
      [] r.cmd = "eosfit" -> IF r.answers = <<>> THEN "aborted" ELSE "done"
      [] ~Asks(disk, r) -> "stored"
      [] Answer(r.answers, 1) = "y" -> "stored"
      [] Answer(r.answers, 1) \in {"n", "enter"} -> "kept"
      [] OTHER -> "aborted"
Errors == {"usage", "blocked", "refused", "failed"}
Logged(o) == o \notin {"usage", "blocked"}
\* figures, whatever the answer about the result file
Figures(r) == {"E", "LC", "G", "Nu", "waves"}
FigureName(r, q) == Base(r) \o "_" \o q \o ".png"
Draws(o, r) == r.cmd = "soec" /\ r.polar /\ r.plot /\ o \in {"stored", "kept", "aborted"}
Put(disk, n, c) == [m \in DOMAIN disk \cup {n} |-> IF m = n THEN c ELSE disk[m]]
After(disk, r) ==
    LET o == Outcome(disk, r)
        d1 == IF Logged(o) THEN Put(disk, LogName(r), "log") ELSE disk
    IN  IF o = "stored" THEN Put(d1, ResultName(r), "result") ELSE d1

(* What the options ask for: the settings of the analysis, with the        *)
(* documented defaults.  Values are the texts of the command line.         *)
Given(o, k, d) == IF k \in DOMAIN o THEN o[k] ELSE d
Formulation == [M |-> "murnaghan", BM |-> "birchmurnaghan", PT |-> "pouriertarantola", V |-> "vinet"]
UnitText(u) == IF u = "cm-1" THEN "cm^-1" ELSE u
Flag(o, k) == IF k \in DOMAIN o THEN "yes" ELSE "no"
Phononic(o) == [trange |-> Given(o, "temperature", "298.15 298.15 1.0"), energy_unit |-> Given(o, "eunit", "Ha"),
                lenght_unit |-> Given(o, "vunit", "A"), frequency_unit |-> UnitText(Given(o, "funit", "cm-1")),
                temperature_unit |-> Given(o, "tunit", "K")]
Settings(cmd, o) ==
    CASE cmd = "ha" -> Phononic(o)
      [] cmd = "qha" -> [k \in DOMAIN Phononic(o) \cup {"prange", "pressure_unit", "qha_scheme", "minimization", "kieffer", "edeg", "fdeg", "eos", "eos_function"} |->
            CASE k = "prange" -> Given(o, "pressure", "0.0 0.0 1.0")
              [] k = "pressure_unit" -> Given(o, "punit", "GPa")
              [] k = "qha_scheme" -> Given(o, "scheme", "td")
              [] k = "minimization" -> Given(o, "minimization", "poly")
              [] k = "kieffer" -> Flag(o, "acoustic")
              [] k = "edeg" -> Given(o, "edeg", "3")
              [] k = "fdeg" -> Given(o, "fdeg", "3")
              [] k = "eos" -> Given(o, "eos", "BM")
              [] k = "eos_function" -> Formulation[Given(o, "eos", "BM")]
              [] OTHER -> Phononic(o)[k]]
      [] cmd = "soec" -> [pressure_unit |-> Given(o, "punit", "GPa"), polar |-> Flag(o, "polar")]
      [] OTHER -> [pressure_unit |-> Given(o, "punit", "GPa"), lenght_unit |-> Given(o, "vunit", "A")]
=============================================================================
