------------------------------- MODULE Build -------------------------------
(* Whole documents: a document grows by one public call at a time; what each *)
(* call is given is any tree the builder API can express, up to Depth block  *)
(* containers and Width children. Behaviours are sampled.                    *)
EXTENDS Content, Json

CONSTANTS Depth,     \* nesting of block containers
          Width,     \* children of a node
          MaxCalls   \* calls per document

One(S) == RandomElement(S)
Odds(n) == RandomElement(1..100) <= n

\* Node numbers make labels and ids: the children of i are 8i+1 .. 8i+7.
Kid(i, j) == 8 * (i % 250000007) + j
S(i) == ToString(i)

Day(i) == "2024-01-0" \o S(1 + (i % 9)) \o "T00:00:0" \o S(i % 10) \o "Z"
Who(i) == "Au" \o S(i) \o "|" \o Day(i)
Url(i) == "http://example.com/" \o S(i)

\* where: "main" (body), "note" (inside a comment or footnote), "hf" (header or footer)
\* struck: inside a deletion
RECURSIVE RunOf(_, _, _), Para(_, _, _), Inline(_, _), Table(_, _, _), Blocks(_, _, _, _), Leaf(_, _, _)

Leaves(where) ==
  <<"t", "t", "t", "tab", "br", "br", "sym", "cr", "img", "ptab">>
    \o (IF where = "main" THEN <<"fn">> ELSE <<>>)

Leaf(i, where, struck) ==
  LET k == One(Range(Leaves(where)))
  IN CASE k = "t" -> IF struck THEN L("dt", "d" \o S(i)) ELSE T("t" \o S(i))
       [] k = "br" -> L("br", One({"page", "column", "textWrapping"}))
       [] k = "sym" -> L("sym", One({"Wingdings|F070", "Symbol|F0B7", "Wingdings 2|F0B7"}))
       [] k = "ptab" -> L("ptab", One({"left", "center", "right"}) \o "," \o One({"margin", "indent"}) \o "," \o One({"none", "dot", "heavy"}))
       [] k = "img" -> L("img", One({"png1", "png2", "gif1", "raw1"}))
       [] k = "fn" -> N("fn", "", [j \in 1..One(0..2) |-> Para(Kid(i, j), "note", 0)])
       [] OTHER -> L(k, "")

\* Runs always hold some text, so that what is around them can be told apart.
RunOf(i, where, struck) ==
  LET first == IF struck THEN L("dt", "d" \o S(i)) ELSE T("t" \o S(i))
  IN R(IF Odds(70) THEN <<first>> ELSE <<first>> \o [j \in 1..One(1..3) |-> Leaf(Kid(i, j), where, struck)])

Runs(i, where, struck, max) == [j \in 1..One(1..max) |-> RunOf(Kid(i, j), where, struck)]

\* Two starts: a comment and its answer.
Commented(i, where, body) ==
  LET c == Nd("cs", S(i), "|" \o Who(i), Blocks(Kid(i, 6), "note", 0, {"p", "tbl"}))
      answer == Nd("cs", S(Kid(i, 7)), "<" \o S(i) \o "|" \o Who(Kid(i, 7)), <<PT("answer" \o S(i))>>)
  IN CASE One(1..4) = 1 -> <<c, answer>> \o body \o <<L("ce", S(i)), L("ce", S(Kid(i, 7)))>>
       [] OTHER -> <<c>> \o body \o <<L("ce", S(i))>>

Marked(i, body) == <<L("bms", S(i) \o ":bm" \o S(i))>> \o body \o <<L("bme", S(i))>>

Change(i, where) ==
  LET k == One({"ins", "del", "mvf", "mvt"})
      plain == Runs(i, where, k = "del", 2)
      inner == IF where = "main" /\ Odds(15) THEN Commented(Kid(i, 5), where, plain) ELSE plain
      struck == N("del", Who(Kid(i, 4)), Runs(Kid(i, 4), where, TRUE, 2))
  IN N(k, Who(i), IF k \in {"ins", "mvt"} /\ Odds(30) THEN Append(inner, struck) ELSE inner)

Link(i, where) ==
  LET to == IF Odds(50) THEN Url(i) ELSE "#bm" \o S(i)
      k == One({"runs", "ins", "del", "sdt", "bm", "cmt"})
      runs == Runs(i, where, FALSE, 2)
      c == CASE k = "ins" -> <<N("ins", Who(i), runs)>>
             [] k = "del" -> runs \o <<N("del", Who(i), Runs(Kid(i, 4), where, TRUE, 1))>>
             [] k = "sdt" -> <<N("sdt", "", runs)>>
             [] k = "bm" -> Marked(i, runs)
             [] k = "cmt" /\ where = "main" -> Commented(Kid(i, 5), where, runs)
             [] OTHER -> runs
  IN N("link", to, c)

\* One inline element, or a range around one.
Inline(i, where) ==
  LET k == One({"r1", "r2", "r3", "change", "link", "sdt", "bm", "cmt", "pgnum", "npages"})
  IN CASE k = "change" -> <<Change(i, where)>>
       [] k = "link" -> <<Link(i, where)>>
       [] k = "sdt" -> <<N("sdt", "", Runs(i, where, FALSE, 2))>>
       [] k = "bm" -> Marked(i, Runs(i, where, FALSE, 2))
       [] k = "cmt" /\ where = "main" -> Commented(i, where, Runs(i, where, FALSE, 2))
       [] k \in {"pgnum", "npages"} -> <<L(k, "")>>
       [] OTHER -> <<RunOf(i, where, FALSE)>>

\* How the paragraph itself is marked. Numberings 2.. are defined by the document.
Para(i, where, d) ==
  LET num == where # "note" /\ Odds(15)
      o == (IF num THEN "num=" \o S(One({2, 3})) \o "," \o S(One(0..2)) \o ";" ELSE "")
           \o (IF Odds(15) THEN "style=" \o One({"Heading1", "Heading2", "Quote"}) \o ";" ELSE "")
           \o (IF Odds(8) THEN "insmark=" \o Who(Kid(i, 1)) \o ";" ELSE "")
           \o (IF Odds(8) THEN "delmark=" \o Who(Kid(i, 2)) \o ";" ELSE "")
           \o (IF Odds(8) THEN "pchange=" \o Who(Kid(i, 3)) \o ";" ELSE "")
      n == IF Odds(10) THEN 0 ELSE One(1..Width)
  IN Nd("p", o, IF num THEN "num" ELSE "", Flat([j \in 1..n |-> Inline(Kid(i, j), where)]))

RowOpts(i) == (IF Odds(8) THEN "ins=" \o Who(Kid(i, 1)) \o ";" ELSE "")
              \o (IF Odds(8) THEN "del=" \o Who(Kid(i, 2)) \o ";" ELSE "")

Table(i, where, d) ==
  LET cells == IF where = "main" THEN {"p", "tbl", "sdt", "toc"} ELSE {"p", "tbl", "sdt"}
  IN Nd("tbl", "", IF Odds(50) THEN "add" ELSE "",
        [r \in 1..One(1..2) |-> N("tr", RowOpts(Kid(i, r)),
           [c \in 1..One(1..2) |-> Tc(Blocks(Kid(Kid(i, r), c), where, d, cells))])])

Block(i, where, d, kinds) ==
  LET k == IF d = 0 \/ Odds(50) THEN "p" ELSE One(kinds)
  IN CASE k = "p" -> Para(i, where, d)
       [] k = "tbl" -> Table(i, where, d - 1)
       [] k = "sdt" -> N("sdt", "", <<Para(Kid(i, 7), where, 0)>> \o Blocks(i, where, d - 1, {"p", "tbl", "sdt"}))
       [] k = "toc" -> N("toc", One({"", "nosdt;"}),
                         (IF Odds(50) THEN <<N("tb", "", Blocks(Kid(i, 1), where, d - 1, {"p", "tbl"}))>> ELSE <<>>)
                         \o (IF Odds(50) THEN <<N("ta", "", Blocks(Kid(i, 2), where, d - 1, {"p", "tbl"}))>> ELSE <<>>))

Blocks(i, where, d, kinds) == [j \in 1..One(0..2) |-> Block(Kid(i, j), where, d, kinds)]

Story1(i, k, v) == N(k, v, Blocks(i, "hf", 1, {"p", "tbl", "sdt"}))
HeaderOrFooter(i) == Story1(i, One({"h", "f"}), One({"default", "first", "even"}))

\* A section takes paragraphs, tables, ranges and its own headers and footers, in any order.
SectionPart(i, d) ==
  LET k == One({"block", "hf", "bm", "cmt"})
      b == <<Block(Kid(i, 1), "main", d, {"p", "tbl"})>>
  IN CASE k = "hf" -> <<HeaderOrFooter(i)>>
       [] k = "bm" -> Marked(i, b)
       [] k = "cmt" -> Commented(i, "main", b)
       [] OTHER -> b

Level(l, fmt) == L("lvl", S(l) \o ",1," \o fmt \o ",%" \o S(l + 1) \o ".,left")
Lists(i) == <<N("absnum", S(i), <<Level(0, "decimal"), Level(1, "lowerLetter")>>),
              N("num", S(i) \o "," \o S(i), <<>>)>>

Call(i) ==
  LET k == One({"block", "block2", "block3", "sect", "end", "hf", "bm", "cmt", "extra"})
      b == Block(Kid(i, 1), "main", Depth, {"p", "tbl", "sdt", "toc"})
  IN CASE k = "sect" -> <<N("sect", "", Flat([j \in 1..One(1..3) |-> SectionPart(Kid(i, j), Depth - 1)]))>>
       [] k = "end" -> <<P(<<N("sp", "", [j \in 1..One(0..2) |-> HeaderOrFooter(Kid(i, j))])>> \o Runs(Kid(i, 3), "main", FALSE, 2))>>
       [] k = "hf" -> <<HeaderOrFooter(i)>>
       [] k = "bm" -> Marked(i, <<b>>)
       [] k = "cmt" -> Commented(i, "main", <<b>>)
       [] k = "extra" -> One({<<L("titlepg", "")>>, <<L("style", "St" \o S(i) \o "|Style " \o S(i))>>,
                              <<L("custom", "c" \o S(i) \o "|<a><b>x</b></a>")>>, <<L("webext", S(i)), L("pane", "")>>,
                              <<L("cprop", "p" \o S(i) \o "=v")>>, <<L("docvar", "d" \o S(i) \o "=v")>>,
                              <<L("json", "")>>, <<L("collectfn", "")>>, <<L("cjson", "")>>, <<L("jsonc", "")>>})
       [] OTHER -> <<b>>

\* ------------------------------------------------------------------------
VARIABLES doc, size

Init == doc = Lists(2) \o Lists(3) /\ size = 0

Next == /\ size < MaxCalls
        /\ size' = size + 1
        /\ doc' = doc \o Call(size + 1)

Root == N("docx", "", doc)

\* Comment and bookmark ids are chosen by the user, who must choose distinct ones.
RECURSIVE Ids(_)
Ids(n) == (IF n.k \in {"cs", "bms"} THEN <<n.v>> ELSE <<>>) \o Flat(Map(Ids, n.c))
Distinct(s) == Cardinality(Range(s)) = Len(s)

Complete == size = MaxCalls /\ Distinct(Ids(Root))
Emit == Complete => PrintT(ToJson([what |-> "b", calls |-> Root, see |-> Observation(Root)]))
EmitJson == Complete => PrintT(ToJson([what |-> "b", calls |-> Root, json |-> JsonForm(Root)]))
=============================================================================
