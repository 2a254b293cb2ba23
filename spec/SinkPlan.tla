------------------------------ MODULE SinkPlan ------------------------------
(* Documents, ways of writing them and sinks: the requests at which a sink   *)
(* misbehaves, how much it can hold and how much it takes at once.           *)
EXTENDS Things, Json

CONSTANTS Docs,     \* kinds of things in the document; "" for none, "all" for all
          Ats,      \* requests
          Kinds0,   \* what the sink does there
          Rooms,    \* room for so many thousandths of the package; 9999: enough
          Gulps,    \* most bytes taken at once; 0: any number
          Kept,     \* does it store what it takes only when flushed or moved
          Max,      \* faults
          Sampled

VARIABLES what, direct, faults, room, gulp, kept
vars == <<what, direct, faults, room, gulp, kept>>

RECURSIVE Each(_)
Each(ks) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE k \in ks : TRUE IN One(k, 1) \o One(k, 2) \o Each(ks \ {k})
Root(k) == N("docx", "", CASE k = "" -> <<>> [] k = "all" -> Each(Known) [] OTHER -> Each({k}))

Init == what \in Docs /\ direct \in BOOLEAN /\ faults = <<>> /\ room \in Rooms /\ gulp \in Gulps /\ kept \in Kept
Some1(set) == IF Sampled THEN {RandomElement(set)} ELSE set
Next == /\ Len(faults) < Max
        /\ \E a \in Some1(Ats), k \in Some1(Kinds0) : faults' = Append(faults, <<a, k>>)
        /\ UNCHANGED <<what, direct, room, gulp, kept>>

Emit == Len(faults) = Max => PrintT(ToJson([what |-> what, calls |-> Root(what), direct |-> direct, faults |-> faults, room |-> room, gulp |-> gulp, kept |-> kept]))
=============================================================================
