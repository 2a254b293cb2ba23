------------------------------- MODULE Notes -------------------------------
(* Histories of calls around footnotes: notes of any content anywhere, clones *)
(* of elements that hold notes, and collecting notes before writing.         *)
EXTENDS Content, Json

CONSTANTS Max, Sampled

Fn(x, ps) == N("fn", "", ps)
Note(kind, x) ==
  CASE kind = "none" -> Fn(x, <<>>)
    [] kind = "one" -> Fn(x, <<PT("note" \o x)>>)
    [] kind = "same" -> Fn(x, <<PT("same")>>)
    [] OTHER -> Fn(x, <<PT("first" \o x), PT("second" \o x), P(<<>>)>>)

RunN(kind, x) == R(<<T("a" \o x), Note(kind, x), T("b" \o x)>>)
AD == "Ann|2024-05-06T07:08:09Z"

\* Where the note is.
Placed(place, kind, x) ==
  LET r == RunN(kind, x)
      p == P(<<r>>)
  IN CASE place = "body" -> <<p>>
       [] place = "two" -> <<P(<<r, R(<<Note("one", x \o "i"), Note("same", x)>>)>>)>>
       [] place = "dup" -> <<N("dup", "", <<p>>)>>
       [] place = "cell" -> <<Tbl(<<Tr(<<Tc(<<p>>), Tc(<<PT("c"), Tbl1(<<p>>)>>)>>)>>)>>
       [] place = "duptbl" -> <<N("dup", "", <<Tbl1(<<p>>)>>)>>
       [] place = "sdt" -> <<N("sdt", "", <<p>>)>>
       [] place = "inline" -> <<P(<<N("sdt", "", <<r>>)>>)>>
       [] place = "link" -> <<P(<<N("link", "http://example.com/", <<r>>)>>)>>
       [] place = "sect" -> <<N("sect", "", <<p>>)>>
       [] place = "dupsect" -> <<N("dup", "", <<N("sect", "", <<p>>)>>)>>
       [] place = "toc" -> <<N("toc", "", <<N("tb", "", <<p>>), N("ta", "", <<P(<<RunN("one", x \o "t")>>)>>)>>)>>
       [] place = "ins" -> <<P(<<N("ins", AD, <<r>>)>>)>>
       [] place = "del" -> <<P(<<N("del", AD, <<R(<<Note(kind, x)>>)>>)>>)>>
       [] place = "insdel" -> <<P(<<N("ins", AD, <<N("del", AD, <<R(<<Note(kind, x)>>)>>)>>)>>)>>
       [] place = "mvf" -> <<P(<<N("mvf", AD, <<r>>)>>)>>
       [] place = "mvt" -> <<P(<<N("mvt", AD, <<r>>)>>)>>

Places == {"body", "two", "dup", "cell", "duptbl", "sdt", "inline", "link", "sect", "dupsect", "toc", "ins", "del",
           "insdel", "mvf", "mvt"}
NoteKinds == {"none", "one", "same", "more"}

\* Calls that look at or collect the notes there are so far.
Looks == {"collectfn", "json", "jsonc", "cjson"}
\* Clones of an empty note may share one footnote: they are told apart by their paragraphs.
Calls == {<<p, k>> \in Places \X NoteKinds : k = "none" => p \notin {"dup", "duptbl", "dupsect", "cell"}} \cup {<<l, "">> : l \in Looks} \cup {<<"plain", "">>}
\* The exhaustive search leaves out what differs only in the content of the note.
Few == {<<p, "one">> : p \in Places} \cup {<<"body", "none">>, <<"body", "same">>, <<"cell", "more">>}
       \cup {<<"collectfn", "">>, <<"json", "">>, <<"plain", "">>}

Do(s, x) ==
  CASE s[1] \in Looks -> <<L(s[1], "")>>
    [] s[1] = "plain" -> <<PT("plain" \o x)>>
    [] OTHER -> Placed(s[1], s[2], x)

VARIABLES hist, doc
Init == hist = <<>> /\ doc = <<>>
Add(s) == /\ Len(hist) < Max
          /\ hist' = Append(hist, s[1] \o ":" \o s[2])
          /\ doc' = doc \o Do(s, ToString(Len(hist) + 1))
Next == IF Sampled THEN Add(RandomElement(Calls)) ELSE \E s \in Few : Add(s)

Root == N("docx", "", doc)
Complete == Len(hist) = Max
Emit == Complete => PrintT(ToJson([what |-> hist, calls |-> Root, see |-> Observation(Root)]))
=============================================================================
