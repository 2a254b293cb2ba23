------------------------------ MODULE Pictures ------------------------------
(* Pictures: a document holds a sequence of pictures, each with its bytes,   *)
(* its id (generated or chosen by the caller, possibly one the library uses  *)
(* itself) and the story it is placed in. INTENT: every picture shows its    *)
(* own bytes, equal bytes are stored once, different bytes never merged.     *)
EXTENDS Content, Json

CONSTANTS Max,      \* pictures per document
          Bytes,    \* names of images; raw1 and raw2 have equal length and CRC-32
          Ids,      \* "" = generated
          Places,
          Sampled   \* TRUE: only one random successor per state

VARIABLES pics

Init == pics = <<>>

Add(p) == Len(pics) < Max /\ pics' = Append(pics, p)

All == Bytes \X Ids \X Places

Next == IF Sampled THEN Add(RandomElement(All)) ELSE \E p \in All : Add(p)

Img(p) == Nd("img", p[1], IF p[2] = "" THEN "" ELSE "id=" \o p[2] \o ";", <<>>)
Par(i, p) == P(<<R(<<T("pic" \o ToString(i)), Img(p)>>)>>)

At(place) == SelectSeq([i \in DOMAIN pics |-> <<i, pics[i]>>], LAMBDA x : x[2][3] = place)
Pars(place) == Map(LAMBDA x : Par(x[1], x[2]), At(place))

In(place, wrap(_)) == LET ps == Pars(place) IN IF ps = <<>> THEN <<>> ELSE <<wrap(ps)>>

\* A link in the same part, and one header and footer in every document: ids chosen for
\* pictures meet all generated ones.
Root ==
  N("docx", "",
    <<P(<<N("link", "http://example.com/a", <<RT("l")>>)>>)>>
    \o Pars("body")
    \o In("cell", LAMBDA ps : Tbl1(ps))
    \o In("sdt", LAMBDA ps : N("sdt", "", ps))
    \o In("sect", LAMBDA ps : N("sect", "", ps))
    \o In("link", LAMBDA ps : P(<<N("link", "http://example.com/b", Flat(Map(LAMBDA q : q.c, ps)))>>))
    \o In("ins", LAMBDA ps : P(<<N("ins", "A|2024-01-01T00:00:00Z", Flat(Map(LAMBDA q : q.c, ps)))>>))
    \o In("toc", LAMBDA ps : N("toc", "", <<N("tb", "", ps)>>))
    \o In("cmt", LAMBDA ps : P(<<Nd("cs", "5", "|A|2024-01-01T00:00:00Z", ps), RT("x"), L("ce", "5")>>))
    \o In("fn", LAMBDA ps : P(<<R(<<N("fn", "", ps)>>)>>))
    \o <<N("h", "default", <<PT("head")>> \o Pars("header"))>>
    \o In("first", LAMBDA ps : N("h", "first", ps))
    \o <<N("f", "default", <<PT("foot")>> \o Pars("footer"))>>)

Complete == Len(pics) = Max

Emit == Complete => PrintT(ToJson([what |-> Map(LAMBDA p : p[1] \o "/" \o p[2] \o "/" \o p[3], pics),
                                   calls |-> Root, see |-> Observation(Root)]))
=============================================================================
