------------------------------ MODULE ParaIds -------------------------------
(* Paragraph ids. A document is filled with paragraphs whose ids are         *)
(* generated here, generated on another thread, chosen by the caller, empty, *)
(* or repeated by adding a clone, in every story.                            *)
(* INTENT: written ids are pairwise distinct, and an id only one paragraph   *)
(* asked for (and that is never generated) stays with that paragraph.        *)
EXTENDS Content, Json

CONSTANTS Max, Sources, Places, Sampled

VARIABLES ps

Init == ps = <<>>
All == Sources \X Places
Add(x) == Len(ps) < Max /\ ps' = Append(ps, x)
Next == IF Sampled THEN Add(RandomElement(All)) ELSE \E x \in All : Add(x)

Opt(src) ==
  CASE src = "gen" -> ""
    [] src = "thread" -> "thread;"
    [] src = "none" -> "id=;"
    [] OTHER -> "id=" \o src \o ";"

\* A place may hold the paragraph more than once.
Copies(place) == IF place \in {"dup", "dupcell", "dupsdt", "dupsect", "duptoc"} THEN 2 ELSE 1

Par(i, src) == Nd("p", "", Opt(src), <<RT("p" \o ToString(i))>>)

Wrap(i, x) ==
  LET q == Par(i, x[1])
      id == ToString(40 + i)
      cs(kids, o) == Nd("cs", id, o \o "|A|2024-01-01T00:00:00Z", kids)
      anchor(c) == P(<<c, RT("x"), L("ce", id)>>)
  IN CASE x[2] = "body" -> <<q>>
       [] x[2] = "dup" -> <<N("dup", "", <<q>>)>>
       [] x[2] = "cell" -> <<Tbl1(<<q>>)>>
       [] x[2] = "dupcell" -> <<N("dup", "", <<Tbl1(<<q>>)>>)>>
       [] x[2] = "nested" -> <<Tbl1(<<Tbl1(<<q>>)>>)>>
       [] x[2] = "sdt" -> <<N("sdt", "", <<q>>)>>
       [] x[2] = "dupsdt" -> <<N("dup", "", <<N("sdt", "", <<Tbl1(<<q>>)>>)>>)>>
       [] x[2] = "sect" -> <<N("sect", "", <<q>>)>>
       [] x[2] = "dupsect" -> <<N("dup", "", <<N("sect", "", <<q>>)>>)>>
       [] x[2] = "endhead" -> <<P(<<N("sp", "", <<N("h", "default", <<q>>)>>), RT("e")>>)>>
       [] x[2] = "secthead" -> <<N("sect", "", <<PT("s"), N("h", "default", <<q>>)>>)>>
       [] x[2] = "toc" -> <<N("toc", "", <<N("tb", "", <<q>>), N("ta", "", <<Tbl1(<<PT("z")>>)>>)>>)>>
       [] x[2] = "duptoc" -> <<N("dup", "", <<N("toc", "", <<N("ta", "", <<Tbl1(<<q>>)>>)>>)>>)>>
       [] x[2] = "celltoc" -> <<Tbl1(<<N("toc", "", <<N("tb", "", <<q>>)>>)>>)>>
       [] x[2] = "cmt" -> <<anchor(cs(<<q>>, ""))>>
       [] x[2] = "cmttbl" -> <<anchor(cs(<<Tbl1(<<q>>)>>, ""))>>
       [] x[2] = "cmtins" -> <<P(<<N("ins", "A|2024-01-01T00:00:00Z", <<cs(<<q>>, ""), RT("x"), L("ce", id)>>)>>)>>
       [] x[2] = "reply" ->
            <<P(<<cs(<<q>>, ""), Nd("cs", ToString(60 + i), "<" \o id \o "|B|2024-01-01T00:00:00Z", <<PT("r")>>),
                  RT("x"), L("ce", id), L("ce", ToString(60 + i))>>)>>
       [] x[2] = "answer" ->
            <<P(<<cs(<<PT("r")>>, ""), Nd("cs", ToString(60 + i), "<" \o id \o "|B|2024-01-01T00:00:00Z", <<PT("o"), q>>),
                  RT("x"), L("ce", id), L("ce", ToString(60 + i))>>)>>
       [] x[2] = "fn" -> <<P(<<R(<<N("fn", "", <<q>>)>>)>>)>>
       [] x[2] = "linkfn" -> <<P(<<N("link", "http://example.com/", <<R(<<N("fn", "", <<q>>)>>)>>)>>)>>
       [] x[2] = "emptycmt" -> <<anchor(cs(<<>>, "")), q>>
       [] x[2] = "header" -> <<N("h", "default", <<q>>)>>
       [] x[2] = "headtbl" -> <<N("h", "first", <<Tbl1(<<q>>)>>)>>
       [] x[2] = "headsdt" -> <<N("h", "even", <<N("sdt", "", <<q>>)>>)>>
       [] x[2] = "footer" -> <<N("f", "default", <<q>>)>>
       [] x[2] = "foottbl" -> <<N("f", "even", <<Tbl1(<<q>>)>>)>>
       [] x[2] = "emptycell" -> <<Tbl1(<<>>), q>>

Root == N("docx", "", Flat([i \in DOMAIN ps |-> Wrap(i, ps[i])]))

\* A later header (footer) call for the same page kind replaces the earlier one.
Slot == [p \in {"header", "headtbl", "headsdt", "footer", "foottbl"} |->
          CASE p = "header" -> "h1" [] p = "headtbl" -> "h2" [] p = "headsdt" -> "h3"
            [] p = "footer" -> "f1" [] OTHER -> "f2"]
Replaced(i) == ps[i][2] \in DOMAIN Slot /\ \E j \in (i+1)..Len(ps) : ps[j][2] \in DOMAIN Slot /\ Slot[ps[j][2]] = Slot[ps[i][2]]

Chosen == Sources \ {"gen", "thread", "none"}

\* Ids only one written paragraph asks for. Generated ids start with zeros.
Users(s) == {i \in DOMAIN ps : ps[i][1] = s /\ ~Replaced(i)}
Kept == {s \in Chosen : SubSeq(s, 1, 2) # "00" /\ Cardinality(Users(s)) = 1
                          /\ \A i \in Users(s) : Copies(ps[i][2]) = 1}

Complete == Len(ps) = Max

Emit == Complete => PrintT(ToJson(
  [what |-> Map(LAMBDA x : x[1] \o "/" \o x[2], ps), calls |-> Root,
   see |-> Observation(Root),
   kept |-> [s \in Kept |-> "p" \o ToString(CHOOSE i \in Users(s) : TRUE)]]))
=============================================================================
