------------------------------- MODULE Place -------------------------------
(* Exhaustive placement: every feature that needs something outside its own  *)
(* markup (picture, footnote, link, comment, numbering) in every inline      *)
(* wrapper of every chain of block containers.                               *)
EXTENDS Content, Json

CONSTANTS MaxDepth,   \* nesting of block containers
          MaxItems,   \* placements per document
          Feats       \* features to place

HF == {"h:default", "h:first", "h:even", "f:default", "f:first", "f:even"}
InMain == {"tbl", "sdt", "sdtm", "sect", "end", "tocb", "toca", "cmt", "fn"} \cup HF

\* Which container may be put directly into which.
Sub(b) ==
  CASE b = "docx" -> InMain
    [] b = "sect" -> {"tbl", "end", "cmt", "fn"} \cup HF
    [] b = "end" -> HF
    [] b = "tbl" -> {"tbl", "tbladd", "sdt", "sdtm", "tocb", "toca", "cmt", "fn"}
    [] b = "tbladd" -> {"tbl", "sdt", "cmt", "fn"}
    [] b = "sdt" -> {"tbl", "sdt", "sdtm", "end", "cmt", "fn"}
    [] b = "sdtm" -> {"tbl", "sdt"}
    [] b \in {"tocb", "toca"} -> {"tbl", "cmt", "fn"}
    [] b \in HF -> {"tbl", "tbladd", "sdt"}
    [] b = "cmt" -> {"tbl"}
    [] OTHER -> {}

RECURSIVE PathsFrom(_, _)
PathsFrom(b, d) ==
  {<<>>} \cup (IF d = 0 THEN {} ELSE UNION {{<<s>> \o p : p \in PathsFrom(s, d - 1)} : s \in Sub(b)})
\* The paragraph that ends a section ("end") carries headers and footers only.
Paths == {p \in PathsFrom("docx", MaxDepth) : p = <<>> \/ p[Len(p)] # "end"}

InHF(p) == \E i \in DOMAIN p : p[i] \in HF
InNote(p) == \E i \in DOMAIN p : p[i] \in {"cmt", "fn"}

Inlines == {"run", "link", "ins", "del", "mvf", "mvt", "insdel", "mvtdel", "linkins", "linkdel",
            "sdt", "linksdt"}

\* A footnote or comment range belongs to the main story; a link cannot hold a link;
\* content controls and links inside them hold runs only.
Fits(p, w, f) ==
  /\ f \in {"fn", "cmt", "reply"} => ~InHF(p) /\ ~InNote(p)
  /\ f \in {"link", "anchor", "num", "bm"} => w = "run"
  /\ f \in {"cmt", "reply"} => w \notin {"sdt", "linksdt"}

Slots == {s \in Paths \X Inlines \X Feats : Fits(s[1], s[2], s[3])}

Url(x) == "http://example.com/" \o x

CmtMeta(x) == "|Au" \o x \o "|2024-01-02T03:04:05Z"
Cs(x, id, c) == Nd("cs", id, CmtMeta(x), c)

Img(x) == Nd("img", "png" \o x, "", <<>>)

\* The inline nodes of a feature; x is a digit making labels and ids unique.
Inline(f, x) ==
  CASE f = "text" -> <<RT("tx" \o x)>>
    [] f = "img" -> <<R(<<T("a" \o x), Img(x), T("b" \o x)>>)>>
    [] f = "fn" -> <<R(<<T("a" \o x), N("fn", "", <<PT("note" \o x)>>)>>), RT("b" \o x)>>
    [] f = "cmt" -> <<Cs(x, "1" \o x, <<PT("comment" \o x)>>), RT("a" \o x), L("ce", "1" \o x)>>
    [] f = "reply" -> <<Cs(x, "1" \o x, <<PT("comment" \o x)>>),
                        Nd("cs", "2" \o x, "<1" \o x \o CmtMeta("r" \o x), <<PT("reply" \o x)>>),
                        RT("a" \o x), L("ce", "1" \o x), L("ce", "2" \o x)>>
    [] f = "link" -> <<N("link", Url(x), <<RT("l" \o x)>>)>>
    [] f = "anchor" -> <<N("link", "#bm" \o x, <<RT("l" \o x)>>)>>
    [] f = "bm" -> <<L("bms", "3" \o x \o ":bm" \o x), RT("m" \o x), L("bme", "3" \o x)>>
    [] OTHER -> <<RT("n" \o x)>>

AD(x) == "Rev" \o x \o "|2024-05-06T07:08:09Z"

RECURSIVE Struck(_)
\* Inside a deletion text is deleted text (also inside runs).
Struck(c) ==
  Map(LAMBDA n : IF n.k = "t" THEN L("dt", n.v)
                 ELSE IF n.k = "r" THEN R(Struck(n.c)) ELSE n, c)

Wrapped(w, c, x) ==
  CASE w = "run" -> c
    [] w = "link" -> <<N("link", Url("w" \o x), c)>>
    [] w = "ins" -> <<N("ins", AD(x), c)>>
    [] w = "del" -> <<N("del", AD(x), Struck(c))>>
    [] w = "mvf" -> <<N("mvf", AD(x), c)>>
    [] w = "mvt" -> <<N("mvt", AD(x), c)>>
    [] w = "insdel" -> <<N("ins", AD(x), <<N("del", AD("d" \o x), Struck(c))>>)>>
    [] w = "mvtdel" -> <<N("mvt", AD(x), <<N("del", AD("d" \o x), Struck(c))>>)>>
    [] w = "linkins" -> <<N("link", Url("w" \o x), <<N("ins", AD(x), c)>>)>>
    [] w = "linkdel" -> <<N("link", Url("w" \o x), <<N("del", AD(x), Struck(c))>>)>>
    [] w = "sdt" -> <<N("sdt", "", c)>>
    [] w = "linksdt" -> <<N("link", Url("w" \o x), <<N("sdt", "", c)>>)>>

\* One paragraph holding the feature.
Para(w, f, x) ==
  IF f = "num" THEN Nd("p", "num=2,0;", "num", Wrapped(w, Inline(f, x), x))
  ELSE P(Wrapped(w, Inline(f, x), x))

Wrap(b, blocks, x) ==
  CASE b = "tbl" -> <<Tbl(<<Tr(<<Tc(<<PT("c" \o x)>>), Tc(blocks)>>)>>)>>
    [] b = "tbladd" -> <<Nd("tbl", "", "add", <<Tr(<<Tc(<<PT("c" \o x)>>)>>), Tr(<<Tc(blocks)>>)>>)>>
    [] b = "sdt" -> <<N("sdt", "", blocks)>>
    \* with a bookmark and a comment around its blocks
    [] b = "sdtm" -> <<N("sdt", "", <<L("bms", "6" \o x \o ":sm" \o x), Cs(x, "6" \o x, <<PT("k" \o x)>>)>> \o blocks
                                    \o <<L("ce", "6" \o x), L("bme", "6" \o x)>>)>>
    [] b = "sect" -> <<N("sect", "", blocks)>>
    [] b = "end" -> <<P(<<N("sp", "", blocks), RT("e" \o x)>>)>>
    [] b = "tocb" -> <<N("toc", "", <<N("tb", "", blocks)>>)>>
    [] b = "toca" -> <<N("toc", "", <<N("ta", "", blocks)>>)>>
    [] b = "cmt" -> <<P(<<Cs(x, "4" \o x, blocks), RT("h" \o x), L("ce", "4" \o x)>>)>>
    [] b = "fn" -> <<P(<<R(<<T("h" \o x), N("fn", "", blocks)>>)>>)>>
    [] b = "h:default" -> <<N("h", "default", blocks)>>
    [] b = "h:first" -> <<N("h", "first", blocks)>>
    [] b = "h:even" -> <<N("h", "even", blocks)>>
    [] b = "f:default" -> <<N("f", "default", blocks)>>
    [] b = "f:first" -> <<N("f", "first", blocks)>>
    [] b = "f:even" -> <<N("f", "even", blocks)>>

RECURSIVE Nest(_, _, _)
Nest(p, blocks, x) ==
  IF p = <<>> THEN blocks ELSE Wrap(Head(p), Nest(Tail(p), blocks, x), x)

Item(s, x) == Nest(s[1], <<Para(s[2], s[3], x)>>, x)

\* ------------------------------------------------------------------------
VARIABLES items, doc

Init == items = <<>> /\ doc = <<>>

Add(s) ==
  /\ Len(items) < MaxItems
  /\ items' = Append(items, s)
  /\ doc' = doc \o Item(s, ToString(Len(items) + 1))

Next == \E s \in Slots : Add(s)

Root == N("docx", "", doc)

Complete == Len(items) = MaxItems

What == Map(LAMBDA s : Join(s[1], "/") \o ":" \o s[2] \o ":" \o s[3], items)
Emit == Complete => PrintT(ToJson([what |-> What, calls |-> Root, see |-> Observation(Root)]))
EmitJson == Complete => PrintT(ToJson([what |-> What, calls |-> Root, json |-> JsonForm(Root)]))
=============================================================================
