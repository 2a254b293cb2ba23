------------------------------ MODULE TocInstr ------------------------------
(* The instruction of a table of contents: a setting is a switch with or       *)
(* without an argument; the last call of a setter counts, styles add up.       *)
EXTENDS Nodes, Json

CONSTANTS Max, Values, Sampled

VARIABLES calls, set, mapped
vars == <<calls, set, mapped>>

Texts == IF Values = "few" THEN {"a", "two words"}
         ELSE {"a", "two words", "quo\"te", "\"", "back\\slash", "end\\", "\\\"", "\\h", "&amp;", "&quot;", "<b>'", "", " a ", "a,b", "1-3"}
Names == IF Values = "few" THEN {"S", "My Style"} ELSE {"S", "My Style", "q\"s", "b\\", "A&B", "é"}
Spans == IF Values = "few" THEN {"1-3"} ELSE {"1-3", "1-1", "2-9", "0-0", "10-20"}
WithText == {"a", "b", "c", "d", "p", "s"}
WithSpan == {"l", "n", "o"}
Flags == {"h", "u", "w", "x", "z"}
Levels == IF Values = "few" THEN {"1", "2"} ELSE {"0", "1", "9", "12"}

Init == calls = <<>> /\ set = <<>> /\ mapped = <<>>
Set(k, v) == /\ calls' = Append(calls, <<k, v>>)
             /\ set' = Append(SelectSeq(set, LAMBDA x : x[1] # k), <<k, v>>)
             /\ UNCHANGED mapped
\* An identifier without text stands for none.
Identifier(v) == /\ calls' = Append(calls, <<"f", v>>)
                 /\ set' = Append(SelectSeq(set, LAMBDA x : x[1] # "f"), <<"f", v>>)
                 /\ UNCHANGED mapped
Style(n, l) == /\ calls' = Append(calls, <<"t", n, l>>)
               /\ mapped' = mapped \o <<n, l>>
               /\ UNCHANGED set
One(S) == IF Sampled THEN {RandomElement(S)} ELSE S
Next == /\ Len(calls) < Max
        /\ \/ \E k \in One(WithText), v \in One(Texts) : Set(k, v)
           \/ \E k \in One(WithSpan), v \in One(Spans) : Set(k, v)
           \/ \E k \in One(Flags) : Set(k, "")
           \/ \E v \in One(Texts) : Identifier(v)
           \/ \E n \in One(Names), l \in One(Levels) : Style(n, l)
Switches == set \o (IF mapped = <<>> THEN <<>> ELSE <<<<"t", Join(mapped, ",")>>>>)
\* Each switch is written once.
OnceEach == \A i, j \in DOMAIN Switches : i # j => Switches[i][1] # Switches[j][1]
Emit == calls # <<>> => PrintT(ToJson([calls |-> calls, switches |-> Switches]))
=============================================================================
