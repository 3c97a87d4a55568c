-------------------------- MODULE GeneratorSession --------------------------
(***************************************************************************)
(* The input generators as transitions of the files of one directory.  A   *)
(* disk maps names to the kind of thing stored there.  A run is a record   *)
(*   cmd                 "ha" or "soec"                                    *)
(*   stem, ext           the file it is given                              *)
(*   interface, list     the code it says the file comes from; is it a list*)
(*   names               the outputs it stands for: those named in the list*)
(*                       in order, or the file itself                      *)
(*   second              the displacement files of those of phonopy        *)
(*   ref                 the reference among the listed outputs (from 0)   *)
(*   out, place          requested base name ("" : none), and whether its  *)
(*                       folder is there ("here", "missing")               *)
(*   usage               "" or what is wrong with the command line itself  *)
(*   title               what is typed: "text", "enter" or "eof"           *)
(***************************************************************************)
EXTENDS Integers, Sequences
Generators == {"ha", "soec"}
Accepts == [crystal |-> {"freq", "otherfreq"}, phonopy |-> {"phonopy"}]
AcceptsTensor == [crystal |-> {"tensor"}, vasp |-> {"vasptensor"}]
Source(r) == r.stem \o r.ext
Target(r) == CASE r.cmd = "ha" -> (IF r.out = "" THEN "quantas_ha" ELSE r.out) \o ".yaml"
               [] OTHER -> (IF r.out = "" THEN r.stem \o "_soec_input" ELSE r.out) \o ".dat"
There(disk, n) == n \in DOMAIN disk
Kind(disk, n) == IF There(disk, n) THEN disk[n] ELSE "none"
Crystal(kind) == IF kind = "otherfreq" THEN 2 ELSE 1
Range(s) == {s[k] : k \in 1..Len(s)}
Seconds(r) == IF r.cmd = "ha" /\ r.interface = "phonopy" THEN Range(r.second) ELSE {}
\* the outputs are all there, of that code, and of one crystal
Readable(disk, r) ==
    IF r.cmd = "soec" THEN Kind(disk, Source(r)) \in AcceptsTensor[r.interface]
    ELSE IF r.interface = "crystal-qha" THEN ~r.list /\ Kind(disk, Source(r)) = "qhaout"
    ELSE /\ r.list => (Kind(disk, Source(r)) = "list" /\ r.names # <<>>)
         /\ \A k \in 1..Len(r.names) : Kind(disk, r.names[k]) \in Accepts[r.interface]
         /\ \A n \in Seconds(r) : Kind(disk, n) = "disp"
         /\ r.ref \in 0..(Len(r.names) - 1)
         /\ \A j, k \in 1..Len(r.names) : Crystal(Kind(disk, r.names[j])) = Crystal(Kind(disk, r.names[k]))
\* what the generation is made from
Sources(r) == {Source(r)} \cup Range(r.names) \cup Seconds(r)
Blocked(disk, r) == \/ r.place = "missing"
                    \/ Kind(disk, Target(r)) = "dir"
                    \/ Target(r) \in Sources(r)
Outcome(disk, r) ==
    CASE r.usage # "" \/ ~There(disk, Source(r)) -> "usage"
      [] disk[Source(r)] = "dir" -> "refused"
      [] ~Readable(disk, r) -> "refused"
      [] Blocked(disk, r) -> "blocked"
      [] r.title = "eof" -> "aborted"
      [] OTHER -> "written"
Errors == {"usage", "refused", "blocked"}
\* the job name of the generated input
Job(r, typed) == IF r.title = "text" THEN typed ELSE IF r.cmd = "soec" THEN "Unknown" ELSE ""
Put(disk, n, c) == [m \in DOMAIN disk \cup {n} |-> IF m = n THEN c ELSE disk[m]]
After(disk, r) == IF Outcome(disk, r) = "written" THEN Put(disk, Target(r), IF r.cmd = "ha" THEN "phonons" ELSE "elastic") ELSE disk
=============================================================================
