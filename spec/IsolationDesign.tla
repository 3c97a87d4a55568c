-------------------------- MODULE IsolationDesign --------------------------
(***************************************************************************)
(* The objects at work.  The exposed data of object i are read from a      *)
(* cell of memory; Sharing says which cell:                                *)
(*   "none"     every object has its own cells;                            *)
(*   "kind"     the cell belongs to the kind (a class attribute that is    *)
(*              changed in place);                                         *)
(*   "default"  the cell is the object's own but a new one starts from a   *)
(*              default which the use of the objects of its kind changes;  *)
(*   "memo"     loading an input looks up what the last object of the kind *)
(*              loaded under the same name (a cache).                      *)
(* Only the first satisfies Isolation; the others are the mutants of the   *)
(* design which the invariant must exclude.                                *)
(***************************************************************************)
EXTENDS Isolation, Json, TLC
CONSTANTS MaxObj, MaxLen, Sharing, Only, Random,
          Forward     \* only steps that bring an object further, with good inputs
VARIABLES kind,      \* kind[i] = [cls, variant]
          steps,     \* the operations so far
          cell,      \* memory: per object
          kcell,     \* memory: per kind
          full       \* (random walks) the length at which the walk ends
vars == <<kind, steps, cell, kcell, full>>

Kinds == {[cls |-> c, variant |-> v] : c \in Only, v \in {1, 2}}
N == 1..MaxObj
Hist(i) == Own(steps, i, Len(steps))

Init == /\ kind \in IF Random THEN {[i \in N |-> [cls |-> "physical", variant |-> 1]]} ELSE [N -> Kinds]
        /\ IF Random THEN TRUE ELSE kind[1].variant = 1
        /\ steps = <<>>
        /\ cell = [i \in N |-> <<>>]
        /\ kcell = [k \in Kinds \cup {kind[i] : i \in N} |-> <<>>]
        /\ full = MaxLen

\* in a random walk the kinds are drawn first: three objects, often of the same kind
Draw == /\ Random /\ steps = <<>> /\ \A i \in N : kind[i] = [cls |-> "physical", variant |-> 1]
        /\ LET a == RandomElement(Kinds) IN
           LET b == RandomElement(Kinds) IN
           \E m \in {RandomElement(1..4)} :
             kind' = [i \in N |-> IF m = 1 \/ i = 1 THEN a ELSE IF m = 2 THEN b ELSE IF i = 2 THEN a ELSE b]
        /\ kcell' = [k \in Kinds |-> <<>>]
        /\ full' = RandomElement(((MaxLen + 1) \div 2)..MaxLen)
        /\ UNCHANGED <<steps, cell>>

Do(i, o) ==
    /\ o \in Can(kind[i].cls, Hist(i))
    /\ i > 1 => Hist(i - 1) # <<>>
    /\ Forward => /\ o.input # "bad"
                  /\ kind[i].cls # "reader" =>
                       \A n \in 1..Len(Hist(i)) : Hist(i)[n].op # o.op
    /\ steps' = Append(steps, [obj |-> i, op |-> o.op, input |-> o.input])
    /\ LET old == IF Sharing = "kind" THEN kcell[kind[i]]
                  ELSE IF Sharing = "default" /\ o.op = "new" THEN kcell[kind[i]] ELSE cell[i] IN
       LET eff == IF Sharing = "memo" /\ o.op = "load" /\ kcell[kind[i]] # <<>> THEN kcell[kind[i]][1] ELSE o IN
       LET c == IF Sharing = "kind" /\ o.op = "new" THEN <<o>> ELSE Append(old, eff) IN
       /\ cell' = [cell EXCEPT ![i] = c]
       /\ kcell' = [kcell EXCEPT ![kind[i]] =
                      IF Sharing \in {"kind", "default"} THEN c
                      ELSE IF Sharing = "memo" /\ o.op = "load" THEN <<o>> ELSE <<>>]
    /\ UNCHANGED <<kind, full>>

Next == \/ Draw
        \/ /\ Len(steps) < full
           /\ IF Random
              THEN /\ \/ steps # <<>>
                      \/ \E i \in N : kind[i] # [cls |-> "physical", variant |-> 1]
                   /\ \E i \in N, o \in {Op(a, x) : a \in {"new", "load", "run", "save"}, x \in Inputs} : Do(i, o)
              ELSE \E i \in N, o \in {Op(a, x) : a \in {"new", "load", "run", "save"}, x \in Inputs} : Do(i, o)
Spec == Init /\ [][Next]_vars

Exposed(i) == IF Hist(i) = <<>> THEN <<>>
              ELSE IF Sharing = "kind" THEN kcell[kind[i]] ELSE cell[i]

\* every object exposes what it would expose had it been the only one
Isolation == \A i \in N : Exposed(i) = Hist(i)
\* a step of one object changes nothing for the others
Untouched == [][\A i \in N : (Hist(i) = Hist(i)') => (Exposed(i) = Exposed(i)')]_vars

\* the interleavings replayed: complete sequences, both orders of creation
Over == Len(steps) = full /\ Hist(MaxObj) # <<>>
Emit == IF Over /\ steps # <<>> THEN PrintT("VQSC " \o ToJson([kinds |-> [i \in N |-> kind[i]], steps |-> steps])) ELSE TRUE
=============================================================================
