----------------------------- MODULE PhononReader -----------------------------
(***************************************************************************)
(* Phonon input files, seen as the YAML documents they are.  A document is *)
(* [kind |-> "map" | "list" | "text" | "number" | "empty" | "broken" |     *)
(* "binary", keys |-> the keywords that have a value, ...].  An array is   *)
(* written in one of the accepted layouts:                                 *)
(*   [lay |-> "list",   items |-> numbers]     [ a, b, c ]                 *)
(*   [lay |-> "string", items |-> numbers]     [ "a b c" ] one string      *)
(*   [lay |-> "scalar", items |-> one number]  a                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
Mandatory == {"volume", "energy", "phonon", "natom", "supercell", "qpoints"}
Accept(d) == d.kind = "map" /\ Mandatory \subseteq d.keys
Array(node) == node.items
Det3(m) == m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
           - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
           + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
\* what a reader exposes of an accepted document (title "" : not given)
Expose(d) ==
    [title |-> IF "job" \in d.keys THEN d.title ELSE "Unknown",
     natoms |-> d.natom, qpoints |-> d.qpoints, size |-> LET n == Det3(d.supercell) IN IF n < 0 THEN -n ELSE n,
     nvol |-> Len(Array(d.volume)), volume |-> Array(d.volume), energy |-> Array(d.energy),
     \* q-points beyond those listed (qpoints may be the total weight) count for nothing
     weights |-> [q \in 1..d.qpoints |-> IF q <= Len(d.phonon) THEN d.phonon[q].weight ELSE 0],
     freq |-> [q \in 1..Len(d.phonon) |-> [b \in 1..Len(d.phonon[q].bands) |-> Array(d.phonon[q].bands[b])]]]
=============================================================================
