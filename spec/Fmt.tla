-------------------------------- MODULE Fmt --------------------------------
(* One formatted thing (a host) of a document, in one place, and the calls    *)
(* that set its formatting.                                                   *)
EXTENDS Format

CONSTANTS Hosts,     \* the hosts to explore
          Places,    \* the stories and containers to put them in
          AllKinds,  \* whether to explore every kind of host
          Max,       \* number of calls
          Sampled    \* choose calls at random

VARIABLES host, at, kind, calls, state
vars == <<host, at, kind, calls, state>>
Init == /\ host \in Hosts
        /\ at \in PlacesOf(host) \cap Places
        /\ kind \in IF AllKinds THEN Kinds(host) ELSE IF "" \in Kinds(host) THEN {""} ELSE Kinds(host)
        /\ calls = <<>>
        /\ state = InitOf(host, kind)
Call(c) == /\ calls' = Append(calls, c)
           /\ state' = Do(host, state, c)
           /\ UNCHANGED <<host, at, kind>>
Next == /\ Len(calls) < Max
        /\ IF Sampled THEN Call(RandomElement(CallsOf(host))) ELSE \E c \in CallsOf(host) : Call(c)
Emit == Len(calls) = Max => PrintT(ToJson([host |-> host, at |-> at, kind |-> kind, calls |-> calls,
                                           markup |-> Markup(host, state),
                                           read |-> Report(host, Kept(host, state)),
                                           again |-> Markup(host, Kept(host, state))]))
\* The JSON form of a document that was built shows what was set, also what the reader does not keep. Whether it shows
\* a value that means the same as none (may) is left open.
Same == {pre \o "indent." \o e \o "=0" : pre \in {"", "paragraphProperty.", "docDefaults.paragraphPropertyDefault.paragraphProperty."},
                                      e \in {"start", "end"}}
        \cup {"heightRule=atLeast"}
May == Same \cup (IF host = "row" /\ "trHeight@val" \notin DOMAIN state THEN {"heightRule=exact", "heightRule=auto"} ELSE {})
Dates == UNION {IF host = "docx" /\ state["core/" \o d \o "#text"] # CoreInit[d \o "#text"]
                THEN {"docProps.core.config." \o d \o "=" \o state["core/" \o d \o "#text"]} ELSE {} : d \in {"created", "modified"}}
EmitJson == Len(calls) = Max => PrintT(ToJson([host |-> host, at |-> at, kind |-> kind, calls |-> calls, may |-> May,
                                               json |-> (Report(host, state) \cup Dates) \ May]))
\* On the specification: repeating a call changes nothing, except where a call adds to a list.
Adds == {"add_tab", "tabs", "add_doc_var"}
LastWins == \/ calls = <<>>
            \/ calls[Len(calls)].s \in Adds
            \/ Do(host, state, calls[Len(calls)]) = state
\* On the specification: settings do not affect one another. Calls about the same setting form a group; calls of
\* different groups may be exchanged.
Group(s) ==
  CASE s \in {"color", "theme_color", "theme_shade", "theme_tint"} -> "color"
    [] s \in {"bold", "disable_bold"} -> "bold"
    [] s \in {"italic", "disable_italic"} -> "italic"
    [] s \in {"strike", "disable_strike", "dstrike", "disable_dstrike"} -> "strike"
    [] s \in {"spacing", "character_spacing"} -> "spacing"
    [] s \in {"set_border", "set_borders", "clear_border", "clear_all_borders", "t_set_border", "t_set_borders", "t_clear_border",
              "clear_all_border", "c_set_border", "c_set_borders", "c_clear_border"} -> "borders"
    [] s \in {"margins", "set_margins", "cell_margin_top", "cell_margin_right", "cell_margin_bottom", "cell_margin_left",
              "c_margins", "margin_top", "margin_right", "margin_bottom", "margin_left"} -> "margins"
    [] s \in InFrame \cup {"frame_property"} -> "frame"
    [] s \in {"indent", "hanging_chars", "first_line_chars"} -> "indent"
    [] s \in {"add_tab", "tabs"} -> "tabs"
    [] s \in {"page_size", "page_size_wh", "page_orient"} -> "page"
    [] OTHER -> s
RECURSIVE After(_, _, _)
After(h, st, cs) == IF cs = <<>> THEN st ELSE After(h, Do(h, st, Head(cs)), Tail(cs))
Independent ==
  LET n == Len(calls) IN
  n < 2 \/ Group(calls[n - 1].s) = Group(calls[n].s)
        \/ After(host, InitOf(host, kind), SubSeq(calls, 1, n - 2) \o <<calls[n], calls[n - 1]>>) = state
=============================================================================
