------------------------------ MODULE Descent ------------------------------
(* Recursive descent over markup, one token at a time. The parser keeps the open elements and      *)
(* fails on an end tag that does not match, on the end of the input inside an element and on       *)
(* elements nested too deep. Readers are frames: each waits for the end tag of its own element,    *)
(* starts a frame for an element it knows, and looks through the others. Whatever the input is,    *)
(* reading ends, after one step per token, with a document or an error.                            *)
(*                                                                                                 *)
(* The input is chosen token by token, so that behaviours are all streams up to Max tokens inside  *)
(* the body of a document. Each is replayed as the main part of a real package.                    *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Max,      \* tokens in the body
          Deep,     \* elements that may be open below the body
          Names,    \* names of elements that occur
          Careful   \* the end of the input inside an element is an error

Knows == [body |-> {"p", "tbl", "sdt"}, p |-> {"r", "hyperlink", "ins"}, r |-> {"t", "drawing"}, t |-> {}, drawing |-> {"p"},
          hyperlink |-> {"r"}, ins |-> {"r"}, tbl |-> {"tr"}, tr |-> {"tc"}, tc |-> {"p", "tbl"}, sdt |-> {"p", "tbl", "r", "sdt"}]

VARIABLES given,    \* tokens so far
          open,     \* elements open below the body, as the parser sees them
          frames,   \* names the readers wait for, outermost first
          end,      \* "": more input; "suffix": body and document are closed; "eof": the input stops
          outcome,  \* "", "document", "error"
          steps     \* reads of a reader

vars == <<given, open, frames, end, outcome, steps>>
Init == given = <<>> /\ open = <<>> /\ frames = <<"body">> /\ end = "" /\ outcome = "" /\ steps = 0

Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
Running == outcome = "" /\ end = ""

Open(n) ==
    /\ Running /\ Len(given) < Max
    /\ given' = Append(given, [k |-> "o", n |-> n]) /\ steps' = steps + 1 /\ UNCHANGED end
    /\ IF Len(open) >= Deep THEN outcome' = "error" /\ UNCHANGED <<open, frames>>
       ELSE /\ open' = Append(open, n) /\ UNCHANGED outcome
            /\ frames' = IF frames # <<>> /\ Last(frames) \in DOMAIN Knows /\ n \in Knows[Last(frames)]
                         THEN Append(frames, n) ELSE frames
Close(n) ==
    /\ Running /\ Len(given) < Max
    /\ given' = Append(given, [k |-> "c", n |-> n]) /\ steps' = steps + 1 /\ UNCHANGED end
    /\ IF open = <<>> \/ Last(open) # n THEN outcome' = "error" /\ UNCHANGED <<open, frames>>
       ELSE /\ open' = Front(open) /\ UNCHANGED outcome
            /\ frames' = IF Last(frames) = n THEN Front(frames) ELSE frames
Text ==
    /\ Running /\ Len(given) < Max /\ (given # <<>> => Last(given).k # "t")
    /\ given' = Append(given, [k |-> "t", n |-> ""]) /\ steps' = steps + 1
    /\ UNCHANGED <<open, frames, end, outcome>>
(* the input ends                                                                                  *)
Suffix == Running /\ end' = "suffix" /\ steps' = steps + 1 /\ UNCHANGED <<given, open, frames, outcome>>
Stop == Running /\ end' = "eof" /\ UNCHANGED <<given, open, frames, outcome, steps>>
Finish ==
    /\ outcome = "" /\ end = "suffix"
    /\ outcome' = IF open = <<>> THEN "document" ELSE "error"
    /\ UNCHANGED <<given, open, frames, end, steps>>
(* the body is still open                                                                          *)
Eof ==
    /\ outcome = "" /\ end = "eof"
    /\ IF Careful THEN outcome' = "error" /\ UNCHANGED steps
       ELSE steps' = (steps % 1000) + 1 /\ UNCHANGED outcome   \* asks again, and again
    /\ UNCHANGED <<given, open, frames, end>>

Next == (\E n \in Names : Open(n) \/ Close(n)) \/ Text \/ Suffix \/ Stop \/ Finish \/ Eof
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* each frame but the first waits for an element that is open: its end tag comes, or an error      *)
Subsequence(s, t) ==
    LET F[i \in 0..Len(s), j \in 0..Len(t)] ==
          IF i = 0 THEN TRUE ELSE IF j = 0 THEN FALSE
          ELSE F[i, j - 1] \/ (s[i] = t[j] /\ F[i - 1, j - 1])
    IN F[Len(s), Len(t)]
Waits == outcome = "" => frames # <<>> /\ Subsequence(Tail(frames), open)
Work == steps <= Len(given) + 1
Shallow == Len(frames) <= Deep + 1
Ends == <>(outcome # "")

Emit == outcome # "" => PrintT(ToJson([given |-> given, end |-> end, outcome |-> outcome]))
=============================================================================
