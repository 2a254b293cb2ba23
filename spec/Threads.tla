------------------------------- MODULE Threads -------------------------------
(* Comment threads: a sequence of comments, each with what it says, the      *)
(* comment it answers (said before or after it) and the place its range      *)
(* starts in. The thread data of a package names paragraphs, so what a       *)
(* comment ends with matters: a paragraph, a table, nothing.                 *)
(* INTENT: answers belong to the comments they were given to, whatever these *)
(* say and wherever they are.                                                *)
EXTENDS Content, Json

CONSTANTS Max,      \* comments per document
          Forms,    \* what a comment says
          Places,   \* where its range is
          Sampled   \* TRUE: only one random successor per state

VARIABLES said

Init == said = <<>>

Add(x) == Len(said) < Max /\ said' = Append(said, x)

All == [form : Forms, at : Places, of : 0..Max]

Next == IF Sampled THEN Add(RandomElement(All)) ELSE \E x \in All : Add(x)

S(i) == ToString(i)
Id(i) == S(40 + i)

\* What comment i says.
Says(f, i) ==
  LET p == PT("said " \o S(i))
      cell(c) == Tbl1(c)
  IN CASE f = "p" -> <<p>>
       [] f = "pp" -> <<p, PT("more " \o S(i))>>
       [] f = "pt" -> <<p, cell(<<PT("cell " \o S(i))>>)>>
       [] f = "tp" -> <<cell(<<PT("cell " \o S(i))>>), p>>
       [] f = "t" -> <<cell(<<p>>)>>
       [] f = "tt" -> <<p, Tbl(<<Tr(<<Tc(<<PT("a " \o S(i))>>), Tc(<<p, cell(<<PT("in " \o S(i))>>)>>)>>),
                                Tr(<<Tc(<<PT("b " \o S(i))>>)>>)>>)>>
       [] f = "tn" -> <<cell(<<p, cell(<<PT("in " \o S(i))>>)>>)>>
       [] f = "ts" -> <<cell(<<p, N("sdt", "", <<PT("in " \o S(i))>>)>>)>>
       [] f = "none" -> <<>>
       [] f = "empty" -> <<P(<<>>)>>

Meta(i, x) == (IF x.of = 0 THEN "" ELSE "<" \o Id(x.of)) \o "|Author " \o S(i) \o "|2024-01-0" \o S(i) \o "T00:00:00Z"

Start(i, x) == Nd("cs", Id(i), Meta(i, x), Says(x.form, i))
End(i) == L("ce", Id(i))

AD == "Rev|2024-05-06T07:08:09Z"

\* The blocks that hold the range of comment i.
Block(i, x) ==
  LET on == <<Start(i, x), RT("on " \o S(i)), End(i)>>
  IN CASE x.at = "p" -> <<P(<<RT("before")>> \o on)>>
       [] x.at = "ins" -> <<P(<<N("ins", AD, on)>>)>>
       [] x.at = "del" -> <<P(<<N("del", AD, <<Start(i, x), R(<<L("dt", "on " \o S(i))>>), End(i)>>)>>)>>
       [] x.at = "link" -> <<P(<<N("link", "http://example.com", on)>>)>>
       [] x.at = "cell" -> <<Tbl1(<<P(on)>>)>>
       [] x.at = "sdt" -> <<N("sdt", "", <<P(on)>>)>>
       [] x.at = "sect" -> <<N("sect", "", <<P(on)>>)>>
       [] x.at = "two" -> <<P(<<Start(i, x), RT("from " \o S(i))>>), P(<<RT("to " \o S(i)), End(i)>>)>>
       [] x.at = "open" -> <<Start(i, x), PT("on " \o S(i)), End(i)>>
       [] x.at = "around" -> <<P(<<Start(i, x), RT("from " \o S(i))>>), Tbl1(<<PT("cell")>>), P(<<End(i)>>)>>

Root == N("docx", "", Flat([i \in DOMAIN said |-> Block(i, said[i])]))

\* Every answer is to a comment of the document, and no thread answers itself.
RECURSIVE Ends(_, _)
Ends(i, left) == i = 0 \/ (left > 0 /\ i \in DOMAIN said /\ Ends(said[i].of, left - 1))
Threaded == \A i \in DOMAIN said : Ends(i, Max)

Complete == Len(said) = Max /\ Threaded

Emit == Complete => PrintT(ToJson([what |-> [i \in DOMAIN said |-> said[i].form \o "/" \o said[i].at \o "/" \o S(said[i].of)],
                                   calls |-> Root, see |-> Observation(Root)]))
=============================================================================
