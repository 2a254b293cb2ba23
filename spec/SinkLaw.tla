------------------------------ MODULE SinkLaw -------------------------------
(* What a sink may answer to one request, and what a writer makes of it.     *)
EXTENDS Naturals, Sequences

\* all: everything was taken. some: a part was taken; the rest is sent again. again: nothing was taken, the request is
\* repeated. none: nothing was taken and nothing will be. error: the request failed.
Answers == {"all", "some", "again", "none", "error"}
Fatal == {"none", "error"}

After(state, answer) == IF state = "writing" /\ answer \in Fatal THEN "failed" ELSE state

RECURSIVE Ends(_, _)
Ends(state, answers) == IF answers = <<>> THEN (IF state = "writing" THEN "done" ELSE state)
                        ELSE Ends(After(state, Head(answers)), Tail(answers))
=============================================================================
