------------------------------- MODULE Text -------------------------------
(* Text in fields. Texts are sequences of characters given by name. The first half is XML: how a   *)
(* text may be written so that it cannot be taken for markup, and what a conforming parser makes   *)
(* of what was written. The second half is the fields of the library: what a text given to a field *)
(* has to mean where it is written. States are choices of fields and texts.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Max,      \* pieces in a text
          Slots,    \* fields that are given a text
          Only,     \* fields to try; none: all
          Sampled   \* draw one choice per step

-----------------------------------------------------------------------------
(* Characters                                                                                      *)
Illegal == {"nul", "bell", "vt", "esc", "us", "fffe", "ffff"}   \* XML has no way to write these
Dropped == Illegal \cup {"cr"}
Special == {"lt", "gt", "amp", "quot", "apos"}
Space == {"sp", "tab", "nl", "cr", "nbsp", "nel", "ls"}         \* white space in any sense
Other == {"a", "semi", "hash", "bs", "eacute", "clef", "comb", "del", "fffd", "e000", "bom", "zwj", "pct", "comma"}
Single == Illegal \cup Special \cup Space \cup Other

Pieces == [c \in Single |-> <<c>>] @@
    ("entLt" :> <<"amp", "l", "t", "semi">>) @@
    ("entAmp" :> <<"amp", "a", "m", "p", "semi">>) @@
    ("entNum" :> <<"amp", "hash", "3", "8", "semi">>) @@
    ("entNul" :> <<"amp", "hash", "x", "0", "semi">>) @@
    ("entNbsp" :> <<"amp", "n", "b", "s", "p", "semi">>) @@
    ("entNl" :> <<"amp", "hash", "x", "A", "semi">>) @@
    ("cdEnd" :> <<"rsb", "rsb", "gt">>) @@
    ("cdStart" :> <<"lt", "bang", "lsb", "C", "D", "A", "T", "A", "lsb">>) @@
    ("cmStart" :> <<"lt", "bang", "dash", "dash">>) @@
    ("cmEnd" :> <<"dash", "dash", "gt">>) @@
    ("pi" :> <<"lt", "qm", "x", "qm", "gt">>) @@
    ("endTag" :> <<"lt", "slash", "w", "colon", "t", "gt">>) @@
    ("crlf" :> <<"cr", "nl">>) @@
    ("bsQuot" :> <<"bs", "quot">>) @@
    ("word" :> <<"T", "e", "x", "t">>)

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Pieces[Head(s)] \o Cat(Tail(s))
Without(s, D) == SelectSeq(s, LAMBDA c : c \notin D)
Has(s, D) == \E i \in DOMAIN s : s[i] \in D

-----------------------------------------------------------------------------
(* XML: a written text is a sequence of literal characters and character references.               *)
Lit(c) == [k |-> "lit", c |-> c]
Ref(c) == [k |-> "ref", c |-> c]
Escape(s) ==
    LET t == Without(s, Dropped) IN
    [i \in DOMAIN t |-> IF t[i] \in Special \cup {"tab", "nl"} THEN Ref(t[i]) ELSE Lit(t[i])]

Bad == <<"bad">>
(* XML 1.0, 3.3.3: literal white space in an attribute is a space, a quote ends the value          *)
ReadAttr(w) ==
    IF \E i \in DOMAIN w : \/ w[i].c \in Illegal
                           \/ w[i].k = "lit" /\ w[i].c \in {"lt", "amp", "quot"}
    THEN Bad
    ELSE [i \in DOMAIN w |-> IF w[i].k = "lit" /\ w[i].c \in {"tab", "nl", "cr"} THEN "sp" ELSE w[i].c]
(* XML 1.0, 2.4 and 2.11: no markup, no end of a CDATA section, line ends are new lines            *)
ReadText(w) ==
    IF \/ \E i \in DOMAIN w : w[i].c \in Illegal \/ (w[i].k = "lit" /\ w[i].c \in {"lt", "amp"})
       \/ \E i \in 3..Len(w) : /\ w[i] = Lit("gt") /\ w[i-1] = Lit("rsb") /\ w[i-2] = Lit("rsb")
    THEN Bad
    ELSE [i \in DOMAIN w |-> IF w[i] = Lit("cr") THEN "nl" ELSE w[i].c]

-----------------------------------------------------------------------------
(* Fields                                                                                          *)
RunFields == {
    "text", "text.cell", "text.header", "text.firstFooter", "text.comment", "text.footnote",
    "text.link", "text.ins", "text.mvt", "text.sdt", "text.section", "text.del", "text.mvf",
    "toc.itemText", "toc.entry", "toc.itemPage" }
PlainFields == {
    "sym.font", "sym.char", "link.url", "link.url.header", "link.url.footnote", "link.url.comment",
    "link.anchor", "mark.par", "mark.doc", "mark.section", "mark.link", "comment.author",
    "comment.date", "ins.author", "ins.date", "del.author", "del.date", "mvf.author", "mvf.date",
    "mvt.author", "mvt.date", "pins.author", "pins.date", "pdel.author", "pdel.date", "pchg.author",
    "pchg.date", "rowins.author", "rowdel.date", "par.style", "par.id", "par.color", "par.border",
    "frame.wrap", "frame.vanchor", "frame.hanchor", "frame.hrule", "frame.xalign", "frame.yalign",
    "run.style", "run.color", "run.themeShade", "run.themeTint", "run.highlight", "run.underline",
    "run.border", "run.shdColor", "run.shdFill", "font.ascii", "font.hiAnsi", "font.eastAsia",
    "font.cs", "font.asciiTheme", "font.hiAnsiTheme", "font.eastAsiaTheme", "font.csTheme",
    "font.hint", "tbl.style", "tbl.border", "tbl.vanchor", "tbl.hanchor", "tbl.xalign",
    "tbl.yalign", "cell.border", "cell.shdColor", "cell.shdFill", "style.id", "style.name",
    "style.basedOn", "style.next", "style.link", "style.color", "style.highlight",
    "style.underline", "style.wrap", "style.font", "default.font", "lvl.text", "lvl.format",
    "lvl.jc", "lvl.pstyle", "lvl.color", "lvl.highlight", "lvl.underline", "lvl.font",
    "num.styleLink", "num.numStyleLink", "var.name", "var.value", "doc.id", "doc.created",
    "doc.updated", "prop.name", "prop.value", "item.id", "item.attr", "sdt.alias", "sdt.xpath",
    "sdt.prefix", "sdt.store", "toc.alias", "toc.delAuthor", "toc.delDate", "toc.itemKey", "instr",
    "dinstr", "web.id", "web.ref", "web.version", "web.store", "web.storeType", "web.propName",
    "sect.chap", "sect.dir" }
QuotedFields == {
    "toc.tc", "itoc.tc", "itoc.sep", "itoc.mark", "itoc.caption", "itoc.captionNum", "itoc.seqSep",
    "itoc.seq", "tc.text", "tc.id", "hyper", "dinstr.tc", "dinstr.hyper", "toc.style" }
ArgFields == {
    "pageref", "dinstr.pageref" }
JsonFields == { "web.propValue" }
TrimmedFields == { "item.text" }
KeyFields == {"toc.itemKey"}
Fields == RunFields \cup (PlainFields \cup KeyFields) \cup QuotedFields \cup ArgFields \cup JsonFields \cup TrimmedFields

Tried == IF Only = {} THEN Fields ELSE Only \cap Fields

Kept(s) == Without(s, Dropped)

(* an argument of a field instruction: backslashes and quotes are escaped inside quotes            *)
RECURSIVE Inside(_)
Inside(s) == IF s = <<>> THEN <<>>
             ELSE (IF Head(s) \in {"bs", "quot"} THEN <<"bs", Head(s)>> ELSE <<Head(s)>>) \o Inside(Tail(s))
Quoted(s) == <<"quot">> \o Inside(s) \o <<"quot">>
Arg(s) == IF Has(s, Space \cup {"vt", "bs", "quot"}) THEN Quoted(s) ELSE s

(* a JSON string, without its quotes                                                               *)
JsonChar(c) ==
    CASE c = "quot" -> <<"bs", "quot">>  [] c = "bs" -> <<"bs", "bs">>
      [] c = "nl" -> <<"bs", "n">>       [] c = "tab" -> <<"bs", "t">>
      [] c = "cr" -> <<"bs", "r">>       [] c = "nul" -> <<"bs", "u", "0", "0", "0", "0">>
      [] c = "bell" -> <<"bs", "u", "0", "0", "0", "7">>
      [] c = "vt" -> <<"bs", "u", "0", "0", "0", "b">>
      [] c = "esc" -> <<"bs", "u", "0", "0", "1", "b">>
      [] c = "us" -> <<"bs", "u", "0", "0", "1", "f">>
      [] OTHER -> <<c>>
RECURSIVE JsonString(_)
JsonString(s) == IF s = <<>> THEN <<>> ELSE JsonChar(Head(s)) \o JsonString(Tail(s))

RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s
           ELSE IF s[1] \in Space THEN Trim(Tail(s))
           ELSE IF s[Len(s)] \in Space THEN Trim(SubSeq(s, 1, Len(s) - 1))
           ELSE s

(* what the field means by a text; the marker of the reference stands between the same quotes      *)
Meant(f, s) ==
    CASE f \in RunFields -> Without(s, Dropped \cup {"nl"})
      [] f \in PlainFields \cup KeyFields -> Kept(s)
      [] f \in QuotedFields -> Kept(Inside(s))
      [] f \in ArgFields -> Kept(Arg(s))
      [] f \in JsonFields -> Kept(JsonString(s))
      [] f \in TrimmedFields -> Kept(Trim(Kept(s)))
Key(f, s) == IF f \in KeyFields THEN Kept(Arg(s)) ELSE Meant(f, s)

VARIABLES slots
vars == <<slots>>

RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup {<<x>> \o y : x \in DOMAIN Pieces, y \in Strings(n - 1)}

AnyString == LET n == RandomElement(1..Max) IN [i \in 1..n |-> RandomElement(DOMAIN Pieces)]

(* fields of one kind of thing of which a document has one                                         *)
Single1 == {
    {"prop.name", "prop.value"}, {"text.header", "link.url.header"},
    {"text.comment", "comment.author", "comment.date", "link.url.comment"} }
Free(f) == \A i \in DOMAIN slots : slots[i].f # f /\ \A g \in Single1 : ~({f, slots[i].f} \subseteq g)

Init == slots = <<>>
Put(f, p) == Free(f) /\ slots' = Append(slots, [f |-> f, s |-> Cat(p), want |-> Meant(f, Cat(p)), ref |-> Key(f, Cat(p))])
Next ==
    /\ Len(slots) < Slots
    /\ IF Sampled THEN \E f \in {RandomElement(Tried)}, p \in {AnyString} : Put(f, p)
       ELSE \E f \in Tried, p \in Strings(Max) \ {<<>>} : Put(f, p)

(* nothing to see where a text means nothing: only well-formedness is at stake                     *)
Visible == \A i \in DOMAIN slots : Len(slots[i].want) > 0

Emit == slots # <<>> => PrintT(ToJson([slots |-> slots, shape |-> Visible]))

(* A written text is never markup and a parser gets back what was meant.                           *)
Back ==
    \A i \in DOMAIN slots :
        /\ ReadAttr(Escape(slots[i].want)) = slots[i].want
        /\ ReadText(Escape(slots[i].want)) = slots[i].want
        /\ ReadText(Escape(slots[i].s)) = Kept(slots[i].s)
        /\ ReadAttr(Escape(slots[i].s)) = Kept(slots[i].s)
=============================================================================
