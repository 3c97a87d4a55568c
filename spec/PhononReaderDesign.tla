-------------------------- MODULE PhononReaderDesign --------------------------
(***************************************************************************)
(* Kinds of documents, present keywords, array layouts and sizes; reading  *)
(* an accepted document gives each number at its q-point, band and volume, *)
(* whichever layout was used.                                              *)
(***************************************************************************)
EXTENDS PhononReader, TLC, Json
CONSTANT MaxVolumes
VARIABLE d
Kinds == {"list", "text", "number", "empty", "broken", "binary"}
Layouts(n) == IF n = 1 THEN {"list", "string", "scalar"} ELSE {"list", "string"}
Arr(lay, n, base) == [lay |-> lay, items |-> [k \in 1..n |-> base + k]]
Doc(n, nat, nq, lv, le, lf, total, keys) ==
    [kind |-> "map", keys |-> keys, title |-> "T", natom |-> nat, supercell |-> <<<<2, 0, 0>>, <<1, 1, 0>>, <<0, 0, 1>>>>,
     qpoints |-> IF total THEN 2 * nq ELSE nq, volume |-> Arr(lv, n, 0), energy |-> Arr(le, n, 10),
     phonon |-> [q \in 1..nq |-> [weight |-> 2, bands |-> [b \in 1..(3 * nat) |-> Arr(lf, n, 100 * q + 10 * b)]]]]
All == Mandatory \cup {"job"}
Init ==
    \/ \E n \in 1..MaxVolumes, nat \in 1..2, nq \in 1..2, total \in BOOLEAN, job \in BOOLEAN :
         \E lv \in Layouts(n), le \in Layouts(n), lf \in Layouts(n) :
            d = Doc(n, nat, nq, lv, le, lf, total, IF job THEN All ELSE Mandatory)
    \/ \E lost \in (SUBSET All) \ {{}} : d = Doc(4, 1, 1, "list", "list", "list", FALSE, All \ lost)
    \/ \E k \in Kinds : d = [Doc(1, 1, 1, "list", "list", "list", FALSE, All) EXCEPT !.kind = k]
Next == UNCHANGED d
Spec == Init /\ [][Next]_d
Faithful ==
    /\ Accept(d) <=> (d.kind = "map" /\ \A k \in Mandatory : k \in d.keys)
    /\ Accept(d) =>
        LET r == Expose(d) IN
        /\ r.nvol = Len(r.energy) /\ Len(r.weights) = r.qpoints
        /\ \A q \in DOMAIN r.freq, b \in 1..(3 * r.natoms), k \in 1..r.nvol : r.freq[q][b][k] = 100 * q + 10 * b + k
        /\ r.volume = [k \in 1..r.nvol |-> k] /\ r.energy = [k \in 1..r.nvol |-> 10 + k] /\ r.size = 2
Emit == PrintT("VQSC " \o ToJson([kind |-> d.kind, keys |-> d.keys, n |-> Len(d.volume.items), nat |-> d.natom, nq |-> Len(d.phonon),
                                  total |-> d.qpoints # Len(d.phonon), lv |-> d.volume.lay, le |-> d.energy.lay,
                                  lf |-> d.phonon[1].bands[1].lay]))
=============================================================================
