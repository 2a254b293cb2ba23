------------------------------- MODULE Faults -------------------------------
(* Damage to packages. The parts and tokens are those of real packages (SHAPES). A behaviour is a  *)
(* sequence of faults, each at a token of a part, to a part, or to the container; whatever they    *)
(* are, reading ends with a document or an error (module Descent says why).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Faults,   \* faults in a row
          First,    \* number of packages
          Kinds,    \* of faults: "token", "part", "container", "inside", "chain"
          Sampled

Shapes == JsonDeserialize(IOEnv.SHAPES)

VARIABLES base, faults, flat
vars == <<base, faults, flat>>

Parts(b) == Shapes[b].parts
Marked(b) == {p \in DOMAIN Parts(b) : Parts(b)[p].xml /\ Parts(b)[p].toks # <<>>}
Places(b, p) == {i \in DOMAIN Parts(b)[p].toks : Sampled \/ Parts(b)[p].toks[i].rep}

F(o, a) == [op |-> o, arg |-> a]
Values == 0..15
(* names of elements that other readers know                                                       *)
Others == {"p", "r", "t", "tbl", "tr", "tc", "sdt", "sectPr", "rPr", "drawing", "zzz"}
Anywhere == {F("cut", ""), F("cutin", ""), F("drop", ""), F("dup", ""), F("bytes", "utf8"), F("bytes", "nul"), F("bytes", "surrogate")}
OnTag(t) ==
    {F("dropall", ""), F("dupall", ""), F("nest", "2"), F("nest", "300"), F("nest", "5000"), F("nestopen", "3"), F("nestopen", "5000")} \cup
    {F("rename", n) : n \in Others} \cup {F("renameopen", "zzz")} \cup
    (IF t.k = "o" THEN {F("hollow", ""), F("unwrap", "")} ELSE {}) \cup
    (IF t.na = 0 THEN {} ELSE
       {F("adrop", "all"), F("adup", "")} \cup {F("adrop", ToString(k)) : k \in 0..(t.na - 1)} \cup
       {F("aval", ToString(k) \o "," \o ToString(v)) : k \in 0..(t.na - 1), v \in Values} \cup
       {F("aval", "all," \o ToString(v)) : v \in Values})
OnText == {F("text", a) : a \in {"empty", "ent", "amp", "lt", "nul", "numref", "cdata", "comment", "pi", "doctype", "huge"} \cup {ToString(v) : v \in Values}}
Of(t) == Anywhere \cup (IF t.k \in {"o", "e"} THEN OnTag(t) ELSE {}) \cup (IF t.k = "t" THEN OnText ELSE {})

(* markup made of any known names, put inside an element                                           *)
Known(b) == UNION {{Parts(b)[p].toks[i].n : i \in {i \in DOMAIN Parts(b)[p].toks : Parts(b)[p].toks[i].k \in {"o", "e"}}} : p \in Marked(b)}
Decor == {"", " w:val=\"\"", " w:val=\"zzz\" w:id=\"-1\" w:type=\"zzz\"", " r:id=\"rId99\" w:fill=\"\" w:w=\"1e99\" w:pos=\"x\"", " w:ilvl=\"99999999999\" w:name=\"\""}
Piece(ns) == {
    "<" \o ns[1] \o ns[4] \o "/>",
    "<" \o ns[1] \o ns[4] \o ">" \o "<" \o ns[2] \o ns[5] \o "/>" \o "</" \o ns[1] \o ">",
    "<" \o ns[1] \o ns[4] \o "><" \o ns[2] \o ns[5] \o "><" \o ns[3] \o "/></" \o ns[2] \o ">z</" \o ns[1] \o ">",
    "<" \o ns[1] \o "/><" \o ns[2] \o ns[5] \o ">z<" \o ns[3] \o ns[4] \o "/></" \o ns[2] \o ">",
    "<" \o ns[1] \o "><" \o ns[1] \o ns[4] \o "><" \o ns[2] \o ns[5] \o "/></" \o ns[1] \o "><" \o ns[3] \o "/></" \o ns[1] \o ">",
    "</" \o ns[1] \o ">",
    "<" \o ns[1] \o ns[4] \o ">"}

Tok(p, t, f) == [part |-> p, at |-> t.i, op |-> f.op, arg |-> f.arg, fault |-> TRUE, n |-> 0, width |-> 0]
Whole(p, o, a) == [part |-> p, at |-> -1, op |-> o, arg |-> a, fault |-> TRUE, n |-> 0, width |-> 0]
(* beginnings of texts and pictures: marks of byte order, whole and in part, of declarations and of picture formats *)
Short == {"EF", "EFBB", "EFBBBF", "EFBBBFEFBBBF", "EFBB3C", "EFBBBE", "FF", "FE", "FFFE", "FEFF", "FFFE0000", "0000FEFF", "3C", "3C3F", "3C3F786D6C20", "3C21",
          "3E", "26", "00", "0000", "0A", "20", "C0", "E2", "F0", "F09F", "42", "424D", "FFD8", "FFD8FF", "FFD8FFE0", "47494638", "89504E470D0A1A0A",
          "49492A00", "4D4D002A", "49492A00FFFFFFFF", "504B0304", "1A"}
OnPart(b, p) ==
    {Whole(p, "pdrop", ""), Whole(p, "pempty", ""), Whole(p, "pdup", ""), Whole(p, "prename", "word/zzz-" \o p), Whole(p, "prename", "../" \o p)} \cup
    {Whole(p, "pfill", a) : a \in {"text", "decl", "other", "open", "bin", "utf16"}} \cup
    {Whole(p, "pfill", Parts(b)[q].name) : q \in DOMAIN Parts(b)} \cup
    {Whole(p, "pcut", ToString(k)) : k \in 1..15} \cup
    {Whole(p, "phex", a) : a \in Short} \cup {Whole(p, "phead", a) : a \in Short} \cup
    {Whole(p, "pfirst", ToString(k)) : k \in 1..12 \cup {16, 24, 32, 64}} \cup {Whole(p, "pless", ToString(k)) : k \in 1..4} \cup
    {Whole(p, "pflip", ToString(k)) : k \in IF Sampled THEN {RandomElement(0..100000)} ELSE {0, 1, 2, 3, 4, 7, 12, 16, 21, 29, 101, 997, 5003}}

(* the container: a cut anywhere, other bytes, and the fields of its records                       *)
Box(s, o, at, a, n, w) == [part |-> s, at |-> at, op |-> o, arg |-> a, fault |-> FALSE, n |-> n, width |-> w]
Records == [local |-> {<<4, 2>>, <<6, 2>>, <<8, 2>>, <<14, 4>>, <<18, 4>>, <<22, 4>>, <<26, 2>>, <<28, 2>>},
            central |-> {<<4, 2>>, <<8, 2>>, <<10, 2>>, <<16, 4>>, <<20, 4>>, <<24, 4>>, <<28, 2>>, <<30, 2>>, <<32, 2>>, <<34, 2>>, <<42, 4>>},
            end |-> {<<4, 2>>, <<6, 2>>, <<8, 2>>, <<10, 2>>, <<12, 4>>, <<16, 4>>, <<20, 2>>}]
Numbers == {0, 1, 8, 99, 32768, 65535, 2147483647}
Fields(N) == UNION {{Box(s, "field", f[1], ToString(v), n, f[2]) : f \in Records[s], v \in Numbers, n \in N} : s \in DOMAIN Records}
Cuts == {Box("", o, k * 256, "0", 0, 0) : o \in {"cut", "head"}, k \in 0..255}
Bytes == {Box("", "set", RandomElement(0..65535), ToString(v), 0, 0) : v \in {0, 60, 62, 34, 38, 47, 80, 128, 255}}

Put(f) == faults' = Append(faults, f) /\ UNCHANGED <<base, flat>>
(* later faults at other tokens, and nothing after a part or the container is damaged              *)
Fresh(p, i) == \A j \in DOMAIN faults : faults[j].fault /\ faults[j].at >= 0 /\ (faults[j].part # p \/ faults[j].at # i)
Token ==
    /\ "token" \in Kinds
    /\ IF Sampled
       THEN \E p \in {RandomElement(Marked(base))} : \E i \in {RandomElement(Places(base, p))} :
              LET t == Parts(base)[p].toks[i] IN
              /\ Fresh(Parts(base)[p].name, t.i)
              /\ \E f \in {RandomElement(Of(t) \cup {F("move", ToString(RandomElement(0..3000)))})} : Put(Tok(Parts(base)[p].name, t, f))
       ELSE \E p \in Marked(base) : \E i \in Places(base, p) :
              Fresh(Parts(base)[p].name, Parts(base)[p].toks[i].i) /\
              \E f \in Of(Parts(base)[p].toks[i]) : Put(Tok(Parts(base)[p].name, Parts(base)[p].toks[i], f))
Inside ==
    /\ "inside" \in Kinds
    /\ \E p \in {RandomElement(Marked(base))} :
       \E i \in {RandomElement({i \in DOMAIN Parts(base)[p].toks : Parts(base)[p].toks[i].k \in {"o", "e"}})} :
       \E a \in {RandomElement(Known(base))}, b \in {RandomElement(Known(base))}, d \in {RandomElement(Known(base))},
          x \in {RandomElement(Decor)}, y \in {RandomElement(Decor)} :
       \E s \in {RandomElement(Piece(<<a, b, d, x, y>>))} :
         /\ Fresh(Parts(base)[p].name, Parts(base)[p].toks[i].i)
         /\ Put(Tok(Parts(base)[p].name, Parts(base)[p].toks[i], F("inside", s)))
(* elements around each other, as deep as one likes; these readers call each other                 *)
Cycles == {"w:tbl,w:tr,w:tc", "w:sdt", "w:sdt,w:sdtContent", "w:tbl,w:tr,w:tc,w:sdt,w:sdtContent", "w:p,w:sdt,w:sdtContent",
           "w:p,w:r,w:drawing,wp:anchor,a:graphic,a:graphicData,wps:wsp,wps:txbx,w:txbxContent", "w:p,w:r,w:drawing,wps:txbx,w:txbxContent",
           "w:p,w:ins,w:r,w:drawing,wps:txbx,w:txbxContent", "w:p,w:hyperlink,w:r,w:pict,v:shape", "w:p,w:del,w:r", "w:ins", "w:p,w:r", "w:p", "w:r",
           "w:hyperlink", "mc:AlternateContent,mc:Choice", "mc:AlternateContent,mc:Fallback", "w:smartTag", "w:div,w:divsChild", "zzz", "w:rPr", "w:pPr",
           "w:pPr,w:sectPr", "w:rPr,w:ins", "w:lvl,w:pPr", "w:tcPr,w:tcBorders", "w:comment,w:p", "w:r,mc:AlternateContent,mc:Choice,w:drawing,wps:txbx,w:txbxContent,w:p",
           "w:txbxContent", "wp:anchor", "wp:inline", "pic:pic", "a:graphic"}
Chain ==
    /\ "chain" \in Kinds
    /\ \E p \in Marked(base) : \E i \in {i \in Places(base, p) : Parts(base)[p].toks[i].k = "o"} :
       LET t == Parts(base)[p].toks[i] IN
       /\ t.depth <= 1 \/ t.n \in {"w:tc", "w:sdtContent", "w:r", "w:p", "w:txbxContent", "w:comment", "w:drawing", "w:pPr"}
       /\ \E s \in Cycles, n \in {"12", "40", "4000"} : Put(Tok(Parts(base)[p].name, t, F("chain", n \o "|" \o s)))
Part ==
    /\ "part" \in Kinds /\ \A j \in DOMAIN faults : faults[j].fault
    /\ \E p \in IF Sampled THEN {RandomElement(DOMAIN Parts(base))} ELSE DOMAIN Parts(base) :
         /\ \A j \in DOMAIN faults : faults[j].part # Parts(base)[p].name
         /\ \E f \in IF Sampled THEN {RandomElement(OnPart(base, Parts(base)[p].name))} ELSE OnPart(base, Parts(base)[p].name) : Put(f)
Container ==
    /\ "container" \in Kinds
    /\ \E f \in IF Sampled THEN {RandomElement(Fields({RandomElement(0..40)}) \cup Cuts \cup Bytes)}
                ELSE Cuts \cup (IF flat THEN {} ELSE Fields({0, 3})) : Put(f)

Init == /\ faults = <<>>
        /\ base \in IF Sampled THEN {RandomElement(1..First)} ELSE 1..First
        /\ flat \in IF Sampled THEN {RandomElement(BOOLEAN)} ELSE BOOLEAN
Next == Len(faults) < Faults /\ (Token \/ Inside \/ Chain \/ Part \/ Container)

Emit == faults # <<>> => PrintT(ToJson([base |-> base, faults |-> faults, flat |-> flat]))
=============================================================================
