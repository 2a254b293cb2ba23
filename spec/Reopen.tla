------------------------------- MODULE Reopen --------------------------------
(* Whole documents, as Build makes them, opened again between the calls.     *)
EXTENDS Build

CONSTANT Ways

Opening(chance) == IF Odds(chance) THEN <<L("reopen", One(Ways))>> ELSE <<>>

NextOpen == /\ size < MaxCalls
            /\ size' = size + 1
            /\ doc' = doc \o Call(size + 1) \o Opening(40)

EmitOpened == (Complete /\ Opened(doc) > 0 /\ Openable(Root)) =>
                PrintT(ToJson([what |-> "b", calls |-> Root, see |-> Observation(Root)]))
=============================================================================
