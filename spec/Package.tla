------------------------------ MODULE Package ------------------------------
(* ASSEMBLY: the written package as a graph of parts, and when such a graph  *)
(* is sound. A graph is recorded from real bytes:                            *)
(*   parts     <<[name, key (name without case), ext]>>, every zip entry     *)
(*   defaults  <<[ext, type]>>, overrides <<[name, type]>> content types     *)
(*   rels      <<[src, id, kind, to, ext (outside the package)]>>            *)
(*   uses      <<[part, id, by (element), as (attribute)]>> ids in markup    *)
(*   changes   <<[part, kind, id]>>, paras <<[part, id]>>, broken <<text>>   *)
EXTENDS Nodes

CT == "[Content_Types].xml"

Names(g) == {g.parts[i].name : i \in DOMAIN g.parts}

W(x) == "application/vnd.openxmlformats-officedocument.wordprocessingml." \o x \o "+xml"

\* The content type a part must have when it is reached by this kind of relationship.
TypeFor(kind) ==
  CASE kind = "officeDocument" -> W("document.main")
    [] kind \in {"styles", "settings", "fontTable", "numbering", "comments", "commentsExtended",
                 "footnotes", "header", "footer"} -> W(kind)
    [] kind = "core-properties" -> "application/vnd.openxmlformats-package.core-properties+xml"
    [] kind \in {"extended-properties", "custom-properties"} ->
         "application/vnd.openxmlformats-officedocument." \o kind \o "+xml"
    [] kind = "customXmlProps" -> "application/vnd.openxmlformats-officedocument.customXmlProperties+xml"
    [] kind \in {"webextensiontaskpanes", "webextension"} -> "application/vnd.ms-office." \o kind \o "+xml"
    [] kind = "image" -> "image/png"
    [] OTHER -> ""

\* The kind of relationship that an element needs behind its relationship id.
KindFor(el) ==
  CASE el = "headerReference" -> "header"
    [] el = "footerReference" -> "footer"
    [] el = "hyperlink" -> "hyperlink"
    [] el = "blip" -> "image"
    [] el = "webextensionref" -> "webextension"
    [] OTHER -> ""

Single == {"styles", "settings", "numbering", "comments", "footnotes", "fontTable", "commentsExtended"}

\* Indices of s whose key occurs at an earlier index.
Again(s, key(_)) == {i \in DOMAIN s : \E j \in 1..(i - 1) : key(s[j]) = key(s[i])}

TypesOf(g, p) ==
  LET o == {i \in DOMAIN g.overrides : g.overrides[i].name = p.name}
      d == {i \in DOMAIN g.defaults : g.defaults[i].ext = p.ext}
  IN IF o # {} THEN {g.overrides[i].type : i \in o} ELSE {g.defaults[i].type : i \in d}

\* Each problem is <<condition, where>>.
OnceProblems(g) ==
  {<<"part twice", g.parts[i].name>> : i \in Again(g.parts, LAMBDA p : p.key)}

TypeProblems(g) ==
  (IF CT \notin Names(g) THEN {<<"no content types", "">>} ELSE {})
  \cup {<<"extension declared twice", g.defaults[i].ext>> : i \in Again(g.defaults, LAMBDA p : p.ext)}
  \cup {<<"part declared twice", g.overrides[i].name>> : i \in Again(g.overrides, LAMBDA p : p.name)}
  \cup {<<"declared but absent", g.overrides[i].name>> :
         i \in {i \in DOMAIN g.overrides : g.overrides[i].name \notin Names(g)}}
  \cup {<<"no content type", g.parts[i].name>> :
         i \in {i \in DOMAIN g.parts : g.parts[i].name # CT /\ TypesOf(g, g.parts[i]) \subseteq {""}}}
  \cup {<<"wrong content type", g.rels[i].to>> :
         i \in {i \in DOMAIN g.rels :
                 /\ ~g.rels[i].ext /\ TypeFor(g.rels[i].kind) # ""
                 /\ \E j \in DOMAIN g.parts : /\ g.parts[j].name = g.rels[i].to
                                              /\ TypesOf(g, g.parts[j]) # {TypeFor(g.rels[i].kind)}}}

Mains(g) == {i \in DOMAIN g.rels : g.rels[i].src = "" /\ g.rels[i].kind = "officeDocument"}

RelProblems(g) ==
  {<<"relationship id twice", g.rels[i].src \o " " \o g.rels[i].id>> :
     i \in Again(g.rels, LAMBDA r : <<r.src, r.id>>) \cup {i \in DOMAIN g.rels : g.rels[i].id = ""}}
  \cup {<<"relationships of an absent part", g.rels[i].src>> :
         i \in {i \in DOMAIN g.rels : g.rels[i].src # "" /\ g.rels[i].src \notin Names(g)}}
  \cup {<<"leads nowhere", g.rels[i].src \o " " \o g.rels[i].id \o " " \o g.rels[i].to>> :
         i \in {i \in DOMAIN g.rels : ~g.rels[i].ext /\ g.rels[i].to \notin Names(g)}}
  \cup (IF Cardinality(Mains(g)) # 1 THEN {<<"main document", "not exactly one">>} ELSE {})
  \cup {<<"linked twice", g.rels[i].kind>> :
         i \in {i \in DOMAIN g.rels : /\ g.rels[i].kind \in Single
                                      /\ \E j \in 1..(i - 1) : /\ g.rels[j].kind = g.rels[i].kind
                                                               /\ g.rels[j].src = g.rels[i].src}}

UseProblems(g) ==
  {<<"id not declared", g.uses[i].part \o " " \o g.uses[i].by \o " " \o g.uses[i].id>> :
     i \in {i \in DOMAIN g.uses :
              ~\E j \in DOMAIN g.rels : g.rels[j].src = g.uses[i].part /\ g.rels[j].id = g.uses[i].id}}
  \cup {<<"id of the wrong kind", g.uses[i].part \o " " \o g.uses[i].by \o " " \o g.uses[i].id>> :
     i \in {i \in DOMAIN g.uses :
              /\ KindFor(g.uses[i].by) # ""
              /\ \E j \in DOMAIN g.rels : /\ g.rels[j].src = g.uses[i].part /\ g.rels[j].id = g.uses[i].id
                                          /\ g.rels[j].kind # KindFor(g.uses[i].by)}}

BrokenProblems(g) == {<<"not well-formed", g.broken[i]>> : i \in DOMAIN g.broken}

Closed(g) == OnceProblems(g) \cup TypeProblems(g) \cup RelProblems(g) \cup UseProblems(g) \cup BrokenProblems(g)

\* Ids of tracked changes and of paragraphs are not shared within a package.
ChangeProblems(g) ==
  {<<"change id shared", g.changes[i].part \o " " \o g.changes[i].kind \o " " \o g.changes[i].id>> :
     i \in Again(g.changes, LAMBDA r : r.id) \cup {i \in DOMAIN g.changes : g.changes[i].id = ""}}

ParaProblems(g) ==
  {<<"paragraph id shared", g.paras[i].part \o " " \o g.paras[i].id>> :
     i \in Again(g.paras, LAMBDA r : r.id) \cup {i \in DOMAIN g.paras : g.paras[i].id = ""}}
=============================================================================
