-------------------------------- MODULE Sink --------------------------------
(* Writing a package into a sink that may misbehave at any request. A writer *)
(* that follows SinkLaw reports success only if the sink holds the whole     *)
(* package, reports failure exactly if the sink failed, and comes to an end. *)
EXTENDS SinkLaw, TLC

CONSTANTS Units,     \* length of the package
          Repeats,   \* answers "again" in a row
          Careless   \* a writer that overlooks failures, for the counterexample

VARIABLES taken,     \* what the sink holds
          next,      \* first unit not yet sent
          state, repeats, failed
vars == <<taken, next, state, repeats, failed>>

Init == taken = <<>> /\ next = 1 /\ state = "writing" /\ repeats = 0 /\ failed = FALSE

Span(a, n) == [i \in 1..n |-> a + i - 1]

Request(n, answer, part) ==
  /\ state = "writing" /\ next + n - 1 <= Units
  /\ answer = "again" => repeats < Repeats
  /\ answer = "some" => part < n
  /\ LET k == CASE answer = "all" -> n [] answer = "some" -> part [] OTHER -> 0
     IN /\ taken' = taken \o Span(next, k)
        /\ next' = IF Careless /\ answer \in Fatal THEN next + n ELSE next + k
  /\ state' = IF Careless THEN state ELSE After(state, answer)
  /\ repeats' = IF answer = "again" THEN repeats + 1 ELSE 0
  /\ failed' = (failed \/ answer \in Fatal)

Finish == /\ state = "writing" /\ next = Units + 1
          /\ state' = "done"
          /\ UNCHANGED <<taken, next, repeats, failed>>

Next == Finish \/ \E n, p \in 1..Units, a \in Answers : Request(n, a, p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Honest == state = "done" => taken = Span(1, Units)
Told == (state = "failed") = failed
Prefix == taken = Span(1, Len(taken))
Ended == <>(state # "writing")
=============================================================================
