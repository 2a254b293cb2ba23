-------------------------------- MODULE Links --------------------------------
(* Links: a document holds a sequence of links, each with its target and the *)
(* story it is placed in. Targets are names here; the replay puts an address *)
(* or bookmark text in the place of each, different ones for different names.*)
(* INTENT: a link leads to its own target, whatever the other links are.     *)
EXTENDS Content, Json

CONSTANTS Max,      \* links per document
          Targets,  \* addresses, and bookmarks (with #)
          Places,
          Sampled   \* TRUE: only one random successor per state

VARIABLES links

Init == links = <<>>

Add(l) == Len(links) < Max /\ links' = Append(links, l)

All == Targets \X Places

Next == IF Sampled THEN Add(RandomElement(All)) ELSE \E l \in All : Add(l)

Link(i, l) == N("link", l[1], <<RT("link" \o ToString(i))>>)
Par(i, l) == P(<<RT("before"), Link(i, l), RT("after")>>)

At(place) == SelectSeq([i \in DOMAIN links |-> <<i, links[i]>>], LAMBDA x : x[2][2] = place)
Pars(place) == Map(LAMBDA x : Par(x[1], x[2]), At(place))

In(place, wrap(_)) == LET ps == Pars(place) IN IF ps = <<>> THEN <<>> ELSE <<wrap(ps)>>

\* A picture in the same part: its relationship must not be taken for one of a link.
Root ==
  N("docx", "",
    <<P(<<R(<<L("img", "png1")>>)>>)>>
    \o Pars("body")
    \o In("cell", LAMBDA ps : Tbl1(ps))
    \o In("sdt", LAMBDA ps : N("sdt", "", ps))
    \o In("sect", LAMBDA ps : N("sect", "", ps))
    \o In("toc", LAMBDA ps : N("toc", "", <<N("tb", "", ps)>>))
    \o In("cmt", LAMBDA ps : P(<<Nd("cs", "5", "|A|2024-01-01T00:00:00Z", ps), RT("x"), L("ce", "5")>>))
    \o In("fn", LAMBDA ps : P(<<R(<<N("fn", "", ps)>>)>>))
    \o In("header", LAMBDA ps : N("h", "default", ps))
    \o In("first", LAMBDA ps : N("h", "first", ps))
    \o In("footer", LAMBDA ps : N("f", "default", ps)))

Complete == Len(links) = Max

Emit == Complete => PrintT(ToJson([what |-> Map(LAMBDA l : l[1] \o "/" \o l[2], links),
                                   calls |-> Root, see |-> Observation(Root)]))
=============================================================================
