------------------------------ MODULE Nesting ------------------------------
(* RESOLUTION: a consumer walks the markup of one story, event by event.     *)
(* The machine stops at the first event the nesting rules forbid.            *)
(*   <<"open", element, "">>, <<"close", element, "">>                       *)
(*   <<"leaf", element, "">>  (sectPr with "p": inside paragraph properties) *)
(*   <<"field", "begin"|"separate"|"end", "">>                               *)
(*   <<"start"|"end"|"mark", "bookmark"|"comment", id>>                      *)
EXTENDS Nodes, Json, IOUtils

Stories == ndJsonDeserialize(IOEnv.RECORDS)

BlockEls == {"p", "tbl", "sdt"}
InlineEls == {"r", "ins", "del", "moveFrom", "moveTo", "hyperlink", "sdt"}
StoryEls == {"body", "header", "footer", "comment", "footnote"}

\* Elements that may be opened inside e; up is the element around e.
MayOpen(e, up) ==
  CASE e \in StoryEls -> BlockEls
    [] e = "tbl" -> {"tr"}
    [] e = "tr" -> {"tc"}
    [] e = "tc" -> BlockEls
    [] e = "p" -> InlineEls
    [] e = "hyperlink" -> {"r", "ins", "del", "moveFrom", "moveTo", "sdt"}
    [] e \in {"ins", "moveTo"} -> {"r", "ins", "del"}
    [] e \in {"del", "moveFrom"} -> {"r", "ins"}
    [] e = "sdt" -> {"sdtContent"}
    [] e = "sdtContent" -> IF up \in {"p", "hyperlink"} THEN InlineEls ELSE BlockEls
    [] OTHER -> {}

\* Properties come first in their element.
PropsOf(e) ==
  CASE e = "p" -> {"pPr"} [] e = "r" -> {"rPr"} [] e = "tc" -> {"tcPr"} [] e = "tr" -> {"trPr"}
    [] e = "tbl" -> {"tblPr", "tblGrid"} [] e = "sdt" -> {"sdtPr"} [] OTHER -> {}

RunLeaves == {"t", "delText", "tab", "ptab", "br", "cr", "sym", "instrText", "delInstrText", "drawing",
              "footnoteReference", "footnoteRef", "shade"}

\* Markers between elements are allowed in stories, cells, content and inline containers.
MarkerHost == StoryEls \cup {"tc", "tbl", "p", "hyperlink", "ins", "del", "moveFrom", "moveTo", "sdtContent"}

VARIABLES n,       \* story
          pos,     \* events consumed
          stack,   \* open elements: [e, last (child closed last), n (children so far)]
          fields,  \* open fields: "code" or "result"
          seen,    \* markers: [kind, id, st]
          para,    \* a paragraph was met
          wrong    \* first violated rule

Top == Last(stack)
Up == LET below == Front(stack)
      IN IF Top.e = "sdtContent" /\ Len(stack) > 2 THEN stack[Len(stack) - 2].e
         ELSE IF below = <<>> THEN "" ELSE Last(below).e

Init == /\ n \in 1..Len(Stories)
        /\ pos = 0
        /\ stack = <<[e |-> Stories[n].story, last |-> "", n |-> 0]>>
        /\ fields = <<>>
        /\ seen = {}
        /\ para = FALSE
        /\ wrong = ""

Events == Stories[n].events

Enclosing(e) == \E k \in DOMAIN stack : stack[k].e = e

\* The rule an event violates, "" if none.
Wrong(ev) ==
  CASE Top.e = "body" /\ Top.last = "sectPr" -> "content after the final section properties"
    [] ev[1] = "open" ->
         IF ev[2] \in MayOpen(Top.e, Up) THEN "" ELSE ev[2] \o " inside " \o Top.e
    [] ev[1] = "close" ->
         CASE ev[2] # Top.e -> "close of " \o ev[2] \o " inside " \o Top.e
           [] Top.e = "tc" /\ Top.last # "p" -> "cell does not end with a paragraph"
           [] OTHER -> ""
    [] ev[1] = "leaf" /\ ev[2] = "sectPr" ->
         IF ev[3] = "p"
         THEN IF Len(stack) = 2 /\ stack[1].e = "body" THEN "" ELSE "section break inside a container"
         ELSE IF Top.e = "body" THEN "" ELSE "section properties inside " \o Top.e
    [] ev[1] = "leaf" /\ ev[2] \in {"pPr", "rPr", "tcPr", "trPr", "tblPr", "tblGrid", "sdtPr"} ->
         IF ev[2] \notin PropsOf(Top.e) THEN ev[2] \o " inside " \o Top.e
         ELSE IF Top.n # (IF ev[2] = "tblGrid" THEN 1 ELSE 0) THEN ev[2] \o " is not first" ELSE ""
    [] ev[1] = "leaf" ->
         CASE Top.e # "r" \/ ev[2] \notin RunLeaves -> ev[2] \o " inside " \o Top.e
           [] ev[2] = "t" /\ Enclosing("del") -> "text inside a deletion"
           [] ev[2] = "delText" /\ ~Enclosing("del") -> "deleted text outside a deletion"
           [] OTHER -> ""
    [] ev[1] = "field" ->
         CASE Top.e # "r" -> "field character outside a run"
           [] ev[2] = "begin" -> ""
           [] ev[2] = "separate" -> IF fields # <<>> /\ Last(fields) = "code" THEN "" ELSE "field separated without begin"
           [] OTHER -> IF fields # <<>> THEN "" ELSE "field ended without begin"
    [] ev[1] = "start" ->
         CASE Top.e \notin MarkerHost -> "range start inside " \o Top.e
           [] \E m \in seen : m.kind = ev[2] /\ m.id = ev[3] -> ev[2] \o " starts twice"
           [] OTHER -> ""
    [] ev[1] = "end" ->
         CASE Top.e \notin MarkerHost -> "range end inside " \o Top.e
           [] [kind |-> ev[2], id |-> ev[3], st |-> "open"] \notin seen -> ev[2] \o " ends without start"
           [] OTHER -> ""
    [] ev[1] = "mark" ->
         IF [kind |-> ev[2], id |-> ev[3], st |-> "closed"] \in seen THEN "" ELSE "comment mark without its range"

\* At the end of the story nothing may be left open.
EndWrong ==
  CASE Len(stack) # 1 -> "elements left open"
    [] Top.e # "body" /\ ~para -> "story without a paragraph"
    [] Top.e = "body" /\ Top.last # "sectPr" -> "body does not end with section properties"
    [] fields # <<>> -> "field left open"
    [] \E m \in seen : m.st = "open" -> "range left open"
    [] \E m \in seen : m.kind = "comment" /\ m.st = "closed" -> "comment without its mark"
    [] OTHER -> ""

\* The parent after a child of kind e.
After(s, e) ==
  LET t == Last(s)
  IN Append(Front(s), [e |-> t.e, last |-> e, n |-> t.n + 1])

Step ==
  /\ wrong = "" /\ pos < Len(Events)
  /\ LET ev == Events[pos + 1]
         w == Wrong(ev)
     IN /\ wrong' = w
        /\ pos' = pos + 1
        /\ n' = n
        /\ para' = (para \/ (ev[1] = "open" /\ ev[2] = "p"))
        /\ stack' = CASE w # "" -> stack
                      [] ev[1] = "open" -> Append(stack, [e |-> ev[2], last |-> "", n |-> 0])
                      [] ev[1] = "close" -> After(Front(stack), ev[2])
                      [] ev[1] = "leaf" /\ ev[3] = "p" -> stack
                      [] ev[1] = "leaf" -> After(stack, ev[2])
                      [] OTHER -> After(stack, IF Top.e \in {"tc", "body"} /\ ev[1] \in {"start", "end"} THEN Top.last ELSE ev[1])
        /\ fields' = CASE w # "" \/ ev[1] # "field" -> fields
                       [] ev[2] = "begin" -> Append(fields, "code")
                       [] ev[2] = "separate" -> Append(Front(fields), "result")
                       [] OTHER -> Front(fields)
        /\ seen' = CASE w # "" -> seen
                     [] ev[1] = "start" -> seen \cup {[kind |-> ev[2], id |-> ev[3], st |-> "open"]}
                     [] ev[1] = "end" -> (seen \ {[kind |-> ev[2], id |-> ev[3], st |-> "open"]})
                                         \cup {[kind |-> ev[2], id |-> ev[3], st |-> "closed"]}
                     [] ev[1] = "mark" -> (seen \ {[kind |-> ev[2], id |-> ev[3], st |-> "closed"]})
                                          \cup {[kind |-> ev[2], id |-> ev[3], st |-> "marked"]}
                     [] OTHER -> seen

Finish ==
  /\ wrong = "" /\ pos = Len(Events)
  /\ pos' = pos + 1
  /\ wrong' = EndWrong
  /\ UNCHANGED <<n, stack, fields, seen, para>>

Next == Step \/ Finish

Judge == wrong # "" => PrintT(ToJson([bad |-> n, problems |-> <<wrong, pos>>]))
=============================================================================
