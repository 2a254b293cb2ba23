-------------------------------- MODULE Toc --------------------------------
(* Tables of contents. A document is built from paragraphs with styles, in    *)
(* any container or story, and from tables of contents; when it is written,   *)
(* every automatic table lists the headings its instruction selects and       *)
(* refers to each by a bookmark around it.                                    *)
EXTENDS Nodes, Json

CONSTANTS Max,      \* number of blocks
          Mode,     \* "select": instructions and styles; "forms": places and contents; "any"; "again": with reopening
          Sampled

VARIABLES blocks, styles
vars == <<blocks, styles>>

D(i) == ToString(i)

\* Styles --------------------------------------------------------------------
\* A paragraph style is a heading of level n if it is named "heading n".
Known == <<[id |-> "Heading1", name |-> "Heading 1", lvl |-> 1],
           [id |-> "h2", name |-> "heading 2", lvl |-> 2],
           [id |-> "Third", name |-> "HEADING 3", lvl |-> 3],
           [id |-> "Heading9", name |-> "heading 9", lvl |-> 9],
           [id |-> "Custom", name |-> "My heading 1", lvl |-> 0],
           [id |-> "Heading2", name |-> "Quote", lvl |-> 0],
           [id |-> "ToC1", name |-> "toc 1", lvl |-> 0],
           [id |-> "n1", name |-> "heading remark 2", lvl |-> 0],
           [id |-> "n2", name |-> "Heading 1 Char", lvl |-> 0],
           [id |-> "n3", name |-> "heading", lvl |-> 0],
           [id |-> "n4", name |-> "heading 2b", lvl |-> 0],
           [id |-> "n5", name |-> "HeAdInG 4", lvl |-> 4],
           [id |-> "n6", name |-> "heading 12", lvl |-> 0],
           [id |-> "n7", name |-> "sub heading 2", lvl |-> 0]>>
\* Names that are nearly those of headings.
Odd == <<8, 9, 10, 11, 12, 13, 14>>
StyleSets == IF Mode = "forms" THEN {<<1, 2, 5>>} ELSE {<<1, 2, 3, 4, 5, 6>>, <<1, 2, 5, 6, 7>>, <<5, 4, 1>>, Odd}
\* Ids paragraphs may name, defined or not.
Used == IF Mode = "forms" THEN {"Heading1", "h2"} ELSE IF styles = Odd THEN {"n1", "n2", "n3", "n4", "n5", "n6", "n7"} ELSE {"", "Heading1", "h2", "Third", "Heading9", "Custom", "Heading2", "None"}
HeadingLevel(s) == LET m == {i \in DOMAIN styles : Known[styles[i]].id = s}
                   IN IF m = {} THEN 0 ELSE Known[styles[CHOOSE i \in m : TRUE]].lvl

\* Paragraphs ----------------------------------------------------------------
Places == IF Mode = "select" THEN {""} ELSE {"", "cell", "nested", "sdt", "sdtcell", "section", "header", "comment", "footnote"}
Main(at) == at \notin {"header", "comment", "footnote"}
AD == "Rev|2024-05-06T07:08:09Z"
Forms == IF Mode = "select" THEN {"plain"} ELSE {"plain", "two", "ins", "del", "mv", "link", "sdt", "tab", "same", "empty", "mark", "own"}
\* The text of a heading is its current text: deleted text and text moved away do not count.
Inline(f, i) ==
  LET t == "T" \o D(i) IN
  CASE f = "plain" -> <<RT(t)>>
    [] f = "two" -> <<RT(t), RT("u")>>
    [] f = "ins" -> <<RT(t), N("ins", AD, <<RT("new")>>)>>
    [] f = "del" -> <<RT(t), N("del", AD, <<R(<<L("dt", "gone")>>)>>), RT("z")>>
    [] f = "mv" -> <<N("mvf", AD, <<RT("away")>>), N("mvt", AD, <<RT(t)>>)>>
    [] f = "link" -> <<RT(t), N("link", "http://example.com/", <<RT("web")>>)>>
    [] f = "sdt" -> <<N("sdt", "", <<RT(t)>>), RT("y")>>
    [] f = "tab" -> <<R(<<T(t), L("tab", ""), T("x")>>)>>
    [] f = "same" -> <<RT("Same")>>
    [] f = "empty" -> <<>>
    [] f = "mark" -> <<RT("A&B <" \o t \o "> &amp; \"q\"")>>
    [] OTHER -> <<L("bms", D(i) \o ":_Toc0000000" \o D(i - 1)), RT(t), L("bme", D(i))>>
Text(f, i) ==
  LET t == "T" \o D(i) IN
  CASE f = "two" -> t \o "u"
    [] f = "ins" -> t \o "new"
    [] f = "del" -> t \o "z"
    [] f = "link" -> t \o "web"
    [] f = "sdt" -> t \o "y"
    [] f = "tab" -> t \o "\tx"
    [] f = "same" -> "Same"
    [] f = "empty" -> ""
    [] f = "mark" -> "A&B <" \o t \o "> &amp; \"q\""
    [] OTHER -> t
Id(i) == "7AAA000" \o D(i)
Para(b, i) == Nd("p", "", (IF b.style = "" THEN "" ELSE "style=" \o b.style \o ";") \o "id=" \o Id(i) \o ";", Inline(b.form, i))

\* Tables of contents --------------------------------------------------------
Ranges == IF Mode = "forms" THEN {<<1, 3>>} ELSE {<<>>, <<1, 1>>, <<1, 3>>, <<2, 9>>, <<3, 2>>}
Maps == IF Mode = "forms" THEN {<<>>} ELSE {<<>>, <<<<"Custom", 2>>>>, <<<<"Custom", 5>>>>, <<<<"h2", 1>>, <<"Heading2", 3>>>>, <<<<"None", 1>>>>}
Kinds == IF Mode \in {"any", "again"} THEN {"auto", "static", "items"} ELSE {"auto"}
TocPlaces == IF Mode = "select" THEN {""} ELSE {"", "cell", "nested"}
\* A style is selected by its heading level, else by the level the instruction gives it, where
\* that is in the range of levels. Without a range all headings are selected, but levels given
\* to styles have no effect.
Given(t, s) == LET m == {i \in DOMAIN t.map : t.map[i][1] = s} IN IF m = {} THEN 0 ELSE t.map[CHOOSE i \in m : TRUE][2]
In(t, l) == l > 0 /\ (IF t.range = <<>> THEN l <= 9 ELSE l >= t.range[1] /\ l <= t.range[2])
LevelIn(t, s) ==
  IF s = "" \/ (t.range = <<>> /\ t.map # <<>>) THEN 0
  ELSE IF In(t, HeadingLevel(s)) THEN HeadingLevel(s)
  ELSE IF In(t, Given(t, s)) THEN Given(t, s) ELSE 0
Entry(t, i) == [lvl |-> LevelIn(t, blocks[i].style), text |-> Text(blocks[i].form, i), to |-> Id(i), link |-> t.link]
\* An automatic table is filled when the document is first written after its making; what was read is never filled again.
Filled(t) == LET later == {j \in DOMAIN blocks : j > t.n /\ blocks[j].b = "reopen"}
             IN IF later = {} THEN Len(blocks) ELSE CHOOSE j \in later : \A k \in later : j <= k
Selected(t) == {i \in 1..Filled(t) : blocks[i].b = "par" /\ Main(blocks[i].at) /\ LevelIn(t, blocks[i].style) > 0}
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN <<i>> \o Ordered(S \ {i})
OwnItems == <<L("ti", "One|1|own1|7"), L("ti", "Two|2|own2|")>>
Entries(t) ==
  CASE t.kind = "auto" -> LET E(i) == Entry(t, i) IN Map(E, Ordered(Selected(t)))
    [] t.kind = "items" -> <<[lvl |-> 1, text |-> "One", to |-> "own1", link |-> t.link], [lvl |-> 2, text |-> "Two", to |-> "own2", link |-> t.link]>>
    [] OTHER -> <<>>
RECURSIVE MapOpts(_)
MapOpts(m) == IF m = <<>> THEN "" ELSE "map=" \o m[1][1] \o "-" \o D(m[1][2]) \o ";" \o MapOpts(Tail(m))
RECURSIVE MapText(_)
MapText(m) == IF m = <<>> THEN <<>> ELSE <<m[1][1], D(m[1][2])>> \o MapText(Tail(m))
Switches(t) ==
  (IF t.range = <<>> THEN <<>> ELSE <<<<"o", D(t.range[1]) \o "-" \o D(t.range[2])>>>>)
  \o (IF t.map = <<>> THEN <<>> ELSE <<<<"t", Join(MapText(t.map), ",")>>>>)
  \o (IF t.link THEN <<<<"h", "">>>> ELSE <<>>)
Q == "\""
RECURSIVE Written(_)
Written(sw) == IF sw = <<>> THEN "" ELSE " \\" \o sw[1][1] \o (IF sw[1][2] = "" THEN "" ELSE " " \o Q \o sw[1][2] \o Q) \o Written(Tail(sw))
\* What stands before and after the entries.
Before(t) == CASE t.wrap = "" -> <<>> [] t.wrap = "par" -> <<PT("Contents")>> [] t.wrap = "tbl" -> <<Tbl1(<<PT("bt")>>)>> [] OTHER -> <<PT("Contents"), Tbl1(<<PT("bt")>>)>>
Behind(t) == CASE t.wrap = "" -> <<>> [] t.wrap = "par" -> <<PT("Over")>> [] t.wrap = "tbl" -> <<Tbl1(<<PT("at")>>)>> [] OTHER -> <<PT("Over"), Tbl1(<<PT("at")>>), PT("Over")>>
TocNode(t) ==
  Nd("toc", "", (IF t.text THEN "instr=TOC" \o Written(Switches(t)) \o ";" \o (IF t.kind = "static" THEN "" ELSE "auto;") \o (IF t.sdt THEN "" ELSE "nosdt;")
                 ELSE (IF t.range = <<>> THEN "" ELSE "range=" \o D(t.range[1]) \o "-" \o D(t.range[2]) \o ";") \o MapOpts(t.map)
                \o (IF t.kind = "static" THEN "" ELSE "auto;") \o (IF t.link THEN "link;" ELSE "") \o (IF t.sdt THEN "" ELSE "nosdt;")),
     (IF t.kind = "items" THEN OwnItems ELSE <<>>) \o (IF t.wrap = "" THEN <<>> ELSE <<N("tb", "", Before(t)), N("ta", "", Behind(t))>>))
HasToc == \E i \in DOMAIN blocks : blocks[i].b = "toc"

\* Behaviour -----------------------------------------------------------------
Init == blocks = <<>> /\ styles \in StyleSets
AddPar(at, s, f) == blocks' = Append(blocks, [b |-> "par", at |-> at, style |-> s, form |-> f])
AddToc(at, k, r, m, l, sdt, w, x) == blocks' = Append(blocks, [b |-> "toc", n |-> Len(blocks) + 1, at |-> at, kind |-> k, range |-> r, map |-> m, link |-> l, sdt |-> sdt, wrap |-> w, text |-> x])
One(S) == IF Sampled THEN {RandomElement(S)} ELSE S
Next == /\ Len(blocks) < Max
        /\ UNCHANGED styles
        /\ \/ \E at \in One(Places), s \in One(Used), f \in One(Forms) : AddPar(at, s, f)
           \/ \E at \in One(TocPlaces), k \in One(Kinds), r \in One(Ranges), m \in One(Maps), l \in One(BOOLEAN), d \in One(BOOLEAN), w \in One({"", "par", "tbl", "both"}), x \in One(BOOLEAN) :
                /\ Mode \in {"select", "forms"} => ~HasToc /\ l = d /\ x = d /\ w = (IF d THEN "" ELSE "par")
                /\ AddToc(at, k, r, m, l, d, w, x)
           \/ /\ Mode = "again" /\ blocks # <<>>
              /\ \E w \in One({"fresh", "on", "direct"}) : blocks' = Append(blocks, [b |-> "reopen", at |-> "", how |-> w])
Spec == Init /\ [][Next]_vars

\* The calls -----------------------------------------------------------------
Put(at, x) ==
  CASE at = "cell" -> Tbl1(<<x>>)
    [] at = "nested" -> Tbl1(<<PT("n"), Tbl1(<<x>>), PT("n")>>)
    [] at = "sdt" -> N("sdt", "", <<x>>)
    [] at = "sdtcell" -> N("sdt", "", <<Tbl1(<<x>>)>>)
    [] at = "section" -> N("sect", "", <<x>>)
    [] at = "header" -> N("sect", "", <<N("h", "default", <<x>>), PT("s")>>)
    [] at = "footnote" -> P(<<R(<<T("f"), N("fn", "", <<x>>)>>)>>)
    [] OTHER -> x
Num(i) == "1" \o D(i)
Block(i) == LET b == blocks[i] x == IF b.b = "par" THEN Para(b, i) ELSE TocNode(b) IN
            IF b.b = "reopen" THEN L("reopen", b.how)
            ELSE IF b.at = "comment" THEN P(<<Nd("cs", Num(i), "|Au|2024-01-02T03:04:05Z", <<x>>), RT("c"), L("ce", Num(i))>>)
            ELSE Put(b.at, x)
StyleCall(i) == L("style", Known[styles[i]].id \o "|" \o Known[styles[i]].name)
Calls == N("docx", "", [i \in DOMAIN styles |-> StyleCall(i)] \o [i \in DOMAIN blocks |-> Block(i)])

\* What a reader finds -------------------------------------------------------
Tocs == LET IsToc(b) == b.b = "toc"
            See(t) == [entries |-> Entries(t), switches |-> Switches(t)]
        IN Map(See, SelectSeq(blocks, IsToc))
\* Bookmarks the user made.
Own == {<<"_Toc0000000" \o D(i - 1), Id(i)>> : i \in {j \in DOMAIN blocks : blocks[j].b = "par" /\ blocks[j].form = "own" /\ Main(blocks[j].at)}}
\* Every listed heading has one entry, and entries follow the document.
OnceInOrder == \A i \in DOMAIN blocks : blocks[i].b = "toc" /\ blocks[i].kind = "auto" =>
                 LET e == Entries(blocks[i]) IN \A a, b \in DOMAIN e : a < b => e[a].to # e[b].to
Emit == HasToc => PrintT(ToJson([calls |-> Calls, tocs |-> Tocs, own |-> Own]))
=============================================================================
