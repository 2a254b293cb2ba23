------------------------------- MODULE Flat -------------------------------
(* One package in two containers. A package maps part names to contents. The zipped form is a      *)
(* sequence of entries. The flat form is one XML file: a sequence of elements that give a part's   *)
(* name, with or without a leading slash, and its content, as markup or as base64 broken into      *)
(* lines. Reading either container gives back the package (Agree). Behaviours choose a real        *)
(* package (SHAPES), parts to leave out, edits that keep the meaning, and how to write both forms. *)
EXTENDS Markup, Integers, Json, IOUtils

CONSTANTS First,    \* number of packages
          Edits,    \* edits of markup at most
          Sampled

Shapes == JsonDeserialize(IOEnv.SHAPES)
Flags == {"gaps", "lines", "binary", "decl", "types", "quotes", "swap", "attrs", "bare"}

VARIABLES base, edits, how, order, stage
vars == <<base, edits, how, order, stage>>

Parts(b) == Shapes[b].parts
Edited(b) == {p \in DOMAIN Parts(b) : Parts(b)[p].xml /\ Parts(b)[p].toks # <<>>}
Gone == {edits[j].part : j \in {j \in DOMAIN edits : edits[j].op = "pdrop"}}

-----------------------------------------------------------------------------
(* The containers. Contents are opaque; a binary one is a sequence of lines that stand for it.     *)
Content(n, flags) ==
    LET lines == IF "lines" \in flags THEN <<"line", "line">> ELSE <<"line">>
        gap == IF "gaps" \in flags THEN <<"ws">> ELSE <<>>
    IN IF "binary" \in flags THEN [as |-> "base64", text |-> gap \o lines \o gap, of |-> n]
       ELSE [as |-> "markup", text |-> gap \o (IF "decl" \in flags THEN <<"decl">> ELSE <<>>) \o <<"markup">> \o gap, of |-> n]
Slash(n, flags) == IF "bare" \in flags THEN <<n>> ELSE <<"/", n>>
ToFlat(pkg, seq, flags) == [i \in DOMAIN seq |-> [name |-> Slash(seq[i], flags), data |-> Content(seq[i], flags)]]
ToZip(pkg, seq) == [i \in DOMAIN seq |-> [name |-> <<seq[i]>>, data |-> pkg[seq[i]]]]
NameOf(n) == n[Len(n)]
FromZip(z) == [n \in {NameOf(z[i].name) : i \in DOMAIN z} |-> z[CHOOSE i \in DOMAIN z : NameOf(z[i].name) = n].data]
FromFlat(f) == [n \in {NameOf(f[i].name) : i \in DOMAIN f} |->
                  LET d == f[CHOOSE i \in DOMAIN f : NameOf(f[i].name) = n].data IN <<"content of", d.of>>]
(* checked on packages of three parts in every order                                               *)
Small == {"_rels/.rels", "word/document.xml", "word/media/a.png"}
Orders(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : s[i] = s[j] => i = j}
Agree ==
    LET pkg == [n \in Small |-> <<"content of", n>>] IN
    \A s, t \in Orders(Small) : FromFlat(ToFlat(pkg, s, how)) = FromZip(ToZip(pkg, t))

-----------------------------------------------------------------------------
Edit(b, p, i, e) == [part |-> Parts(b)[p].name, at |-> Parts(b)[p].toks[i].i, op |-> e.op, arg |-> e.arg]
(* a byte order mark and a declaration cannot stand inside another document                        *)
Fits(e) == ~(e.op = "decl" /\ e.arg \in {"bom", "quotes"})

Init == /\ base \in IF Sampled THEN {RandomElement(1..First)} ELSE 1..First
        /\ edits = <<>> /\ how = {} /\ order = "same" /\ stage = 0
(* a part may be missing though something leads to it                                              *)
Optional(b) == {p \in DOMAIN Parts(b) : ~Parts(b)[p].rels /\ Parts(b)[p].name # "[Content_Types].xml"}
Drop ==
    /\ stage = 0 /\ UNCHANGED <<base, how, order>> /\ stage' = 1
    /\ \/ edits' = edits
       \/ \E p \in IF Sampled THEN {RandomElement(Optional(base))} ELSE Optional(base) :
            edits' = <<[part |-> Parts(base)[p].name, at |-> -1, op |-> "pdrop", arg |-> ""]>>
Change ==
    /\ stage = 1 /\ Sampled /\ Len(edits) < Edits /\ UNCHANGED <<base, how, order, stage>>
    /\ \E p \in {RandomElement(Edited(base))} : \E i \in {RandomElement(DOMAIN Parts(base)[p].toks)} :
         LET t == Parts(base)[p].toks[i] IN
         /\ Parts(base)[p].name \notin Gone
         /\ \A j \in DOMAIN edits : edits[j].part # Parts(base)[p].name \/ edits[j].at # t.i
         /\ {e \in Same(t) : Fits(e)} # {}
         /\ \E e \in {RandomElement({e \in Same(t) : Fits(e)})} : edits' = Append(edits, Edit(base, p, i, e))
Write ==
    /\ stage = 1 /\ stage' = 2 /\ UNCHANGED <<base, edits>>
    /\ how' \in IF Sampled THEN {RandomElement(SUBSET Flags)} ELSE {{}, Flags} \cup {{f} : f \in Flags}
    /\ order' \in IF Sampled THEN {ToString(RandomElement(1..1000000))} ELSE {"same", "rev", "sorted"}
Next == Drop \/ Change \/ Write

Emit == stage = 2 => PrintT(ToJson([base |-> base, edits |-> edits, how |-> how, order |-> order]))
=============================================================================
