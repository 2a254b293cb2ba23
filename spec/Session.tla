------------------------------ MODULE Session ------------------------------
(* What a program does with documents once they are made: it copies them,     *)
(* serialises them, writes them here or on other threads, alone or at the     *)
(* same time, reads back what was written, and meanwhile makes and writes     *)
(* other documents. The state is which document each value in hand is; what a *)
(* write gives depends on that alone.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Docs,      \* documents made at the start
          Max,       \* number of operations
          Hands,     \* values in hand at most
          Sampled

VARIABLES hand,     \* hand[i]: the document value i is; <<d>> as made, Append(o, "read") as read from what o gave
          log,      \* the operations
          gave      \* gave[k]: the document whose package write number k gave
vars == <<hand, log, gave>>
Init == /\ hand = [i \in 1..Docs |-> <<ToString(i)>>]
        /\ log = <<>> /\ gave = <<>>
Op(o, i, x) == [o |-> o, i |-> i, x |-> x]
Do(op) == log' = Append(log, op)
Clone(i) == /\ Len(hand) < Hands
            /\ hand' = Append(hand, hand[i])
            /\ Do(Op("clone", i, "")) /\ UNCHANGED gave
\* Serialising leaves every document what it is.
Serialise(i, how) == Do(Op(how, i, "")) /\ UNCHANGED <<hand, gave>>
Write(i, how, where) == /\ gave' = Append(gave, hand[i])
                        /\ Do(Op(how, i, where)) /\ UNCHANGED hand
\* All values in hand, at the same time.
RECURSIVE Each(_, _)
Each(h, n) == IF n > Len(h) THEN <<>> ELSE <<h[n]>> \o Each(h, n + 1)
WriteAll(how) == /\ gave' = gave \o Each(hand, 1)
                 /\ Do(Op("all", 0, how)) /\ UNCHANGED hand
\* Reading what write k gave: always the same document.
Read(k) == /\ Len(hand) < Hands
           /\ Len(gave[k]) < 3
           /\ hand' = Append(hand, Append(gave[k], "read"))
           /\ Do(Op("read", k, "")) /\ UNCHANGED gave
Drop(i) == /\ Len(hand) > 1
           /\ hand' = SubSeq(hand, 1, i - 1) \o SubSeq(hand, i + 1, Len(hand))
           /\ Do(Op("drop", i, "")) /\ UNCHANGED gave
\* Something else entirely.
Other(what) == Do(Op("other", 0, what)) /\ UNCHANGED <<hand, gave>>

Ways == {"build", "pack"}
Next ==
  /\ Len(log) < Max
  /\ LET I == IF Sampled THEN {RandomElement(DOMAIN hand)} ELSE DOMAIN hand
         K == IF gave = <<>> THEN {} ELSE IF Sampled THEN {RandomElement(DOMAIN gave)} ELSE DOMAIN gave
     IN \/ \E i \in I : Clone(i)
        \/ \E i \in I, how \in {"json", "jsonc", "cjson"} : Serialise(i, how)
        \/ \E i \in I, how \in Ways, where \in {"here", "thread"} : Write(i, how, where)
        \/ \E how \in Ways : WriteAll(how)
        \/ \E k \in K : Read(k)
        \/ \E i \in I : Drop(i)
        \/ \E what \in {"make", "write", "threads"} : Other(what)
\* Emitted with a last write of everything in hand, so that every history is observed.
Final == gave \o Each(hand, 1)
Emit == Len(log) = Max => PrintT(ToJson([log |-> Append(log, Op("all", 0, "build")), gave |-> Final]))
\* On the specification: what was written before stands, whatever happens later.
Stable == [][\A k \in DOMAIN gave : gave'[k] = gave[k]]_vars
Spec == Init /\ [][Next]_vars
=============================================================================
