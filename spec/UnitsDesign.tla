---------------------------- MODULE UnitsDesign ----------------------------
(***************************************************************************)
(* A quantity is carried through a chain of unit conversions.  acc is the  *)
(* exact map from the first unit to the current one.  Path independence    *)
(* and round trips are invariants; the chains themselves are printed and   *)
(* replayed on the implementation.                                         *)
(***************************************************************************)
EXTENDS Units, Json
CONSTANT Hops
VARIABLES kind, chain, acc
vars == <<kind, chain, acc>>
Last == chain[Len(chain)]
Init == /\ kind \in Kinds
        /\ \E u \in Names[kind] : chain = <<u>>
        /\ acc = <<One, Zero>>
Step(u) == /\ Len(chain) <= Hops
           /\ chain' = Append(chain, u)
           /\ acc' = Compose(Direct(kind, Last, u), acc)
           /\ UNCHANGED kind
Next == \E u \in Names[kind] : Step(u)
Spec == Init /\ [][Next]_vars
Same(m, n) == /\ Close(m[1], n[1], Eps(38))
              /\ Near(m[2], n[2], Eps(36), I(1000))
PathIndependent == Same(acc, Direct(kind, chain[1], Last))
RoundTrip == (Last = chain[1]) => Same(acc, <<One, Zero>>)
Emit == (Len(chain) = Hops + 1) => PrintT("VQSC " \o ToJson([kind |-> kind, chain |-> chain]))
=============================================================================
