------------------------------ MODULE Content ------------------------------
(* INTENT: what a consumer that follows every reference of the package must  *)
(* see for a tree of builder calls. Nothing here knows about part names,     *)
(* relationship ids or zip entries.                                          *)
EXTENDS Nodes

EmptyPara == P(<<>>)

\* A story must hold at least one paragraph.
Story(blocks) == IF blocks = <<>> THEN <<EmptyPara>> ELSE blocks

\* A table cell must end with a paragraph; one is written unless a paragraph was added last.
CellEnd(added, blocks) ==
  IF added = <<>> \/ Last(added).k # "p" THEN Append(blocks, EmptyPara) ELSE blocks

FieldRun(code) ==
  R(<<L("fc", "begin"), L("it", code), L("fc", "separate"), T("1"), L("fc", "end")>>)

PageKinds == <<"default", "even", "first">>

\* Last call for a page kind wins.
LastOf(calls, k, v) ==
  LET hits == Filter(calls, LAMBDA n : n.k = k /\ n.v = v)
  IN IF hits = <<>> THEN <<>> ELSE <<Last(hits)>>

\* Calls that put content at their place.
Content == {"p", "tbl", "dup", "sdt", "toc", "sect", "bms", "bme", "cs", "ce"}

\* Only a paragraph can hold the mark written at the end of a comment: an end between
\* blocks goes to the end of the paragraph before it, or into a paragraph of its own.
RECURSIVE EndsInside(_, _)
EndsInside(done, s) ==
  IF s = <<>> THEN done
  ELSE LET n == Head(s)
       IN EndsInside(
            IF n.k # "ce" THEN Append(done, n)
            ELSE IF done # <<>> /\ Last(done).k = "p"
                 THEN Append(Front(done), [Last(done) EXCEPT !.c = Append(Last(done).c, n)])
                 ELSE Append(done, P(<<n>>)), Tail(s))
RECURSIVE HoldsBlocks(_)
HoldsBlocks(n) == \E i \in DOMAIN n.c : n.c[i].k \in {"p", "tbl"} \/ (n.c[i].k = "sdt" /\ HoldsBlocks(n.c[i]))
Laid(calls) == EndsInside(<<>>, Filter(calls, LAMBDA n : n.k \in Content))

RECURSIVE View(_), ViewAll(_)

ViewAll(s) == Flat(Map(View, s))

\* Header/footer references of a section, in the order f < h, default < even < first.
Refs(calls) ==
  Flat([i \in 1..6 |->
    LET k == IF i <= 3 THEN "f" ELSE "h"
        v == PageKinds[IF i <= 3 THEN i ELSE i - 3]
        hit == LastOf(calls, k, v)
    IN IF hit = <<>> THEN <<>> ELSE <<N(k, v, Story(ViewAll(hit[1].c)))>>])

HasFirst(calls) == \E i \in DOMAIN calls : calls[i].k \in {"h", "f"} /\ calls[i].v = "first"
HasEven(calls) == \E i \in DOMAIN calls : calls[i].k \in {"h", "f"} /\ calls[i].v = "even"
HasTitle(calls) == HasFirst(calls) \/ \E i \in DOMAIN calls : calls[i].k = "titlepg"

SectPr(calls) == N("sectPr", IF HasTitle(calls) THEN "titlePg" ELSE "", Refs(calls))

\* A table of contents without entries: field between the blocks before and after it.
TocView(n) ==
  LET before == ViewAll(Flat(Map(LAMBDA x : IF x.k = "tb" THEN x.c ELSE <<>>, n.c)))
      after == ViewAll(Flat(Map(LAMBDA x : IF x.k = "ta" THEN x.c ELSE <<>>, n.c)))
      begin == P(<<R(<<L("fc", "begin"), L("it", "TOC"), L("fc", "separate")>>)>>)
      endrun == R(<<L("fc", "end")>>)
      tail == IF after # <<>> /\ Head(after).k = "p"
              THEN <<Nd("p", Head(after).v, "", <<endrun>> \o Head(after).c)>> \o Tail(after)
              ELSE <<P(<<endrun>>)>> \o after
      inner == before \o <<begin>> \o tail
  IN IF n.v = "nosdt;" THEN inner ELSE <<N("sdt", "", inner)>>

View(n) ==
  CASE n.k \in {"h", "f", "titlepg"} -> <<>>
    [] n.k = "r" -> LET c == ViewAll(n.c) IN IF c = <<>> THEN <<>> ELSE <<N("r", "", c)>>
    [] n.k = "tc" -> <<N("tc", n.v, CellEnd(n.c, ViewAll(n.c)))>>
    [] n.k = "fn" -> <<N("fn", "", Story(ViewAll(n.c)))>>
    [] n.k = "cs" -> <<Nd("cs", n.v, n.o, Story(ViewAll(n.c)))>>
    [] n.k = "ce" -> <<L("ce", n.v), R(<<L("cref", n.v)>>)>>
    [] n.k = "pgnum" -> <<FieldRun("PAGE")>>
    [] n.k = "npages" -> <<FieldRun("NUMPAGES")>>
    [] n.k = "sect" -> ViewAll(Laid(n.c)) \o <<P(<<SectPr(n.c)>>)>>
    [] n.k = "sp" -> <<SectPr(n.c)>>
    [] n.k = "sdt" -> <<N("sdt", n.v, ViewAll(IF HoldsBlocks(n) THEN EndsInside(<<>>, n.c) ELSE n.c))>>
    [] n.k = "toc" -> TocView(n)
    [] n.k = "dup" -> ViewAll(n.c) \o ViewAll(n.c)
    [] OTHER -> <<N(n.k, n.v, ViewAll(n.c))>>

Body(root) == ViewAll(Laid(root.c)) \o <<SectPr(root.c)>>

\* Sections anywhere with even-page content switch even/odd on for the document.
RECURSIVE EvenIn(_)
EvenIn(n) == (n.k \in {"h", "f"} /\ n.v = "even") \/ \E i \in DOMAIN n.c : EvenIn(n.c[i])
EvenOdd(root) == EvenIn(root)

\* Comments: every range start carries its comment. o = "<parent|author|date".
RECURSIVE CommentsOf(_)
CommentsOf(view) ==
  Flat(Map(LAMBDA n : (IF n.k = "cs" THEN <<N("comment", n.v \o n.o, n.c)>> ELSE CommentsOf(n.c)), view))

\* Footnotes in the order of their references.
RECURSIVE FootnotesOf(_)
FootnotesOf(view) ==
  Flat(Map(LAMBDA n : (IF n.k = "fn" THEN <<N("footnote", "", n.c)>> ELSE FootnotesOf(n.c)), view))

RECURSIVE Kinds(_)
Kinds(n) == {n.k} \cup UNION {Kinds(n.c[i]) : i \in DOMAIN n.c}

RECURSIVE ImagesIn(_)
ImagesIn(n) == (IF n.k = "img" THEN {n.v} ELSE {}) \cup UNION {ImagesIn(n.c[i]) : i \in DOMAIN n.c}

RECURSIVE UsesNum(_)
UsesNum(n) == (n.k = "p" /\ n.v # "" /\ n.o = "num") \/ \E i \in DOMAIN n.c : UsesNum(n.c[i])

\* In the package a range start only carries its id; the comment is in its own part.
RECURSIVE Slim(_)
Slim(n) == IF n.k = "cs" THEN L("cs", n.v) ELSE [n EXCEPT !.c = Map(Slim, n.c)]

(* READING: what the reader returns for a package. It does not read          *)
(* footnotes, shows the content of inline content controls in place, gives a *)
(* range start its comment, has no node for the comment mark and keeps       *)
(* addresses for links of the main document only ("?": nothing is promised). *)
RECURSIVE Read(_, _), Unwrap(_)
ReadAll(s, w) == Flat(Map(LAMBDA n : Read(n, w), s))

\* Inline content controls dissolve into their content.
Unwrap(s) == Flat(Map(LAMBDA n : IF n.k = "sdt" THEN Unwrap(n.c) ELSE <<n>>, s))

\* w: "main", "story" (header or footer) or "comment", where n is.
Read(n, w) ==
  CASE n.k \in {"fn", "cref"} -> <<>>
    [] n.k = "cs" -> <<N("cs", n.v \o n.o, ReadAll(n.c, "comment"))>>
    [] n.k = "r" -> LET c == ReadAll(n.c, w) IN IF c = <<>> THEN <<>> ELSE <<N("r", "", c)>>
    [] n.k = "p" -> <<N("p", n.v, ReadAll(Unwrap(n.c), w))>>
    [] n.k = "link" -> <<N("link", IF w # "main" /\ SubSeq(n.v, 1, 1) # "#" THEN "?" ELSE n.v, ReadAll(Unwrap(n.c), w))>>
    [] n.k \in {"h", "f"} -> <<N(n.k, n.v, ReadAll(n.c, "story"))>>
    [] OTHER -> <<N(n.k, n.v, ReadAll(n.c, w))>>

ReadBody(root) == ReadAll(Body(root), "main")

(* OPENING AGAIN: a call "reopen" writes the document, reads the package and *)
(* goes on with what was read. That is the document without its footnotes    *)
(* and with the content of inline content controls in their place.           *)
RECURSIVE Keep(_)
KeepAll(s) == Flat(Map(LAMBDA n : IF n.k = "fn" THEN <<>> ELSE <<Keep(n)>>, s))
Keep(n) == [n EXCEPT !.c = KeepAll(IF n.k \in {"p", "link"} THEN Unwrap(n.c) ELSE n.c)]

Opened(calls) == LET at == {i \in DOMAIN calls : calls[i].k = "reopen"}
                 IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : j <= i
Remaining(root) ==
  LET j == Opened(root.c)
  IN [root EXCEPT !.c = KeepAll(SubSeq(root.c, 1, j)) \o SubSeq(root.c, j + 1, Len(root.c))]

\* Addresses of links outside the main document are not kept.
RECURSIVE FarLinks(_, _)
FarLinks(n, far) ==
  \/ far /\ n.k = "link" /\ SubSeq(n.v, 1, 1) # "#"
  \/ \E i \in DOMAIN n.c : FarLinks(n.c[i], far \/ n.k \in {"h", "f", "cs"})
Openable(root) == ~FarLinks([root EXCEPT !.c = SubSeq(root.c, 1, Opened(root.c))], FALSE)

(* THE JSON FORM of a document shows the calls themselves: nothing is laid   *)
(* out, no story is filled up, ranges end where they were ended. A footnote  *)
(* reference is shown without its note.                                      *)
RECURSIVE Shown(_)
ShownAll(s) == Flat(Map(Shown, s))
ShownRefs(calls) ==
  Flat([i \in 1..6 |->
    LET k == IF i <= 3 THEN "f" ELSE "h"
        v == PageKinds[IF i <= 3 THEN i ELSE i - 3]
        hit == LastOf(calls, k, v)
    IN IF hit = <<>> THEN <<>> ELSE <<N(k, v, ShownAll(hit[1].c))>>])
ShownSect(calls) == N("sectPr", IF HasTitle(calls) THEN "titlePg" ELSE "", ShownRefs(calls))
ShownBlocks(n, k) ==
  LET c == ShownAll(Flat(Map(LAMBDA x : IF x.k = k THEN x.c ELSE <<>>, n.c)))
  IN IF c = <<>> THEN <<>> ELSE <<N(k, "", c)>>
Shown(n) ==
  CASE n.k \in {"h", "f", "titlepg"} -> <<>>
    [] n.k = "r" -> LET c == ShownAll(n.c) IN IF c = <<>> THEN <<>> ELSE <<N("r", "", c)>>
    [] n.k = "fn" -> <<L("fn", "")>>
    [] n.k = "cs" -> <<N("cs", n.v \o n.o, ShownAll(n.c))>>
    [] n.k = "sp" -> <<ShownSect(n.c)>>
    [] n.k = "sect" -> <<N("sect", "", Append(ShownAll(n.c), ShownSect(n.c)))>>
    [] n.k = "toc" -> <<N("toc", n.v, ShownBlocks(n, "tb") \o ShownBlocks(n, "ta"))>>
    [] n.k = "dup" -> ShownAll(n.c) \o ShownAll(n.c)
    [] OTHER -> <<N(n.k, n.v, ShownAll(n.c))>>
RECURSIVE ShownComments(_)
ShownComments(s) ==
  Flat(Map(LAMBDA n : (IF n.k = "cs" THEN <<N("comment", n.v, n.c)>> ELSE <<>>) \o ShownComments(n.c), s))
(* The plain text of a paragraph: its text, tabs and breaks, without what    *)
(* was deleted or moved away and without notes.                              *)
RECURSIVE Plain(_), PlainAll(_)
PlainAll(s) == IF s = <<>> THEN "" ELSE Plain(Head(s)) \o PlainAll(Tail(s))
Plain(n) ==
  CASE n.k = "t" -> n.v
    [] n.k \in {"tab", "ptab"} -> "\t"
    [] n.k \in {"br", "cr"} -> "\n"
    [] n.k \in {"p", "r", "ins", "mvt", "link", "sdt"} -> PlainAll(n.c)
    [] OTHER -> ""
RECURSIVE Paragraphs(_)
Paragraphs(s) == Flat(Map(LAMBDA n : CASE n.k = "p" -> <<n>> [] n.k = "dup" -> Paragraphs(n.c) \o Paragraphs(n.c) [] OTHER -> <<>>, s))

JsonForm(root) ==
  LET body == ShownAll(Filter(root.c, LAMBDA n : n.k \in Content))
  IN [body |-> Append(body, ShownSect(root.c)), comments |-> ShownComments(body), texts |-> Map(Plain, Paragraphs(root.c))]

\* Everything a consumer sees.
Observation(built) ==
  LET root == Remaining(built)
      body == Body(root)
  IN [ body |-> Map(Slim, body),
       comments |-> Map(Slim, CommentsOf(body)),
       footnotes |-> Map(Slim, FootnotesOf(body)),
       read |-> ReadBody(root),
       evenOdd |-> EvenOdd(root),
       media |-> ImagesIn(N("", "", body)) ]
=============================================================================
