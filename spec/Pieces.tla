------------------------------- MODULE Pieces -------------------------------
(* What a run is made of: every kind of piece with every value its           *)
(* parameters take, alone in every wrapper of every story, in pairs in one   *)
(* run, and in longer rows over several runs. Pieces stay in their order and *)
(* keep their parameters in the package and when it is read.                 *)
EXTENDS Place

CONSTANTS Rows,     \* runs in a paragraph
          Len1,     \* pieces in a run
          All,      \* every value of every parameter, or one of each kind
          Paths0,   \* stories
          Ways,     \* wrappers
          Sampled

One(s) == RandomElement(s)

Aligns == {"left", "center", "right"}
Bases == {"margin", "indent"}
Dots == {"none", "dot", "hyphen", "underscore", "heavy", "middleDot"}
Entry == {"TC x" \o f \o l \o n : f \in {"", " \\f C"}, l \in {"", " \\l 1", " \\l 9"}, n \in {"", " \\n"}}
Instrs == {"PAGE", "NUMPAGES", "DATE", "PAGEREF m", "PAGEREF m \\h", "PAGEREF m \\p", "PAGEREF m \\h \\p", "HYPERLINK x", "HYPERLINK \\l x"} \cup Entry

Values ==
  [tab |-> {""}, cr |-> {""}, t |-> {"a", "b"}, br |-> {"page", "column", "textWrapping"}, img |-> {"png1", "raw1"},
   ptab |-> {a \o "," \o b \o "," \o d : a \in Aligns, b \in Bases, d \in Dots},
   sym |-> {f \o "|" \o c : f \in {"Wingdings", "Symbol", "A & <B>"}, c \in {"F070", "f0B7", "1"}},
   fc |-> {t \o d : t \in {"begin", "separate", "end"}, d \in {"", "!"}},
   it |-> Instrs, dit |-> {"DATE", "PAGEREF m \\h", "HYPERLINK x", "HYPERLINK \\l x"} \cup Entry, tc |-> Entry]
Few ==
  [tab |-> {""}, cr |-> {""}, t |-> {"a"}, br |-> {"page"}, img |-> {"png1"}, ptab |-> {"right,indent,hyphen"}, sym |-> {"Symbol|F0B7"},
   fc |-> {"begin!"}, it |-> {"PAGEREF m \\h \\p"}, dit |-> {"DATE"}, tc |-> {"TC x \\f C \\l 2 \\n"}]
Of == IF All THEN Values ELSE Few
Pieces == UNION {{L(k, v) : v \in Of[k]} : k \in DOMAIN Of}

\* A table of contents entry is a field around its instruction.
Laid1(p) == IF p.k = "tc" THEN <<L("fc", "begin"), L("it", p.v), L("fc", "end")>> ELSE <<p>>
Open(c) == Flat(Map(Laid1, c))

RECURSIVE Spread(_)
Spread(n) == IF n.k = "r" THEN R(Open(n.c)) ELSE [n EXCEPT !.c = Map(Spread, n.c)]

VARIABLES runs, at, way

Path(s) == CASE s = "" -> <<>> [] s = "tbl2" -> <<"tbl", "tbl">> [] OTHER -> <<s>>
Start == runs = <<<<>>>> /\ at \in Paths0 /\ way \in Ways /\ items = <<>> /\ doc = <<>>

LastRun == runs[Len(runs)]
Piece == /\ Len(LastRun) < Len1
         /\ \E p \in (IF Sampled THEN {One({L(k, v) : v \in Of[k]}) : k \in {One(DOMAIN Of)}} ELSE Pieces) :
              runs' = [runs EXCEPT ![Len(runs)] = Append(LastRun, p)]
         /\ UNCHANGED <<at, way, items, doc>>
NewRun == /\ Len(runs) < Rows /\ LastRun # <<>>
          /\ runs' = Append(runs, <<>>)
          /\ UNCHANGED <<at, way, items, doc>>
More == Piece \/ NewRun

Whole == Len(runs) = Rows /\ Len(LastRun) = Len1
Done == IF Sampled THEN Whole ELSE LastRun # <<>>

Here == N("docx", "", Nest(Path(at), <<P(Wrapped(way, Map(R, runs), "1"))>>, "1") \o <<PT("last")>>)
Which == at \o ":" \o way \o ":" \o Join(Map(LAMBDA r : Join(Map(LAMBDA p : p.k \o " " \o p.v, r), ","), runs), ";")
Show == Done => PrintT(ToJson([what |-> Which, calls |-> Here, see |-> Observation(Spread(Here))]))
ShowJson == Done => PrintT(ToJson([what |-> Which, calls |-> Here, json |-> JsonForm(Spread(Here))]))
=============================================================================
