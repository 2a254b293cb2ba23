------------------------------- MODULE Mixed -------------------------------
(* Formatted things next to and inside one another: the runs of a paragraph,  *)
(* each in an element of its own kind, and the tables, rows, cells and inner  *)
(* tables of a table. What is set on one of them stays on that one.           *)
EXTENDS Format

CONSTANTS Hosts,     \* "runs", "grid"
          Places,
          Widest,    \* runs of a paragraph; rows, cells and inner tables of each table
          Deepest,   \* tables inside one another
          Max,       \* number of steps
          Sampled

\* A thing: where it is (path from the block), its host and kind, its calls and state.
Thing(path, h, k) == [path |-> path, host |-> h, kind |-> k, calls |-> <<>>, state |-> InitOf(h, k)]
VARIABLES host, at, things, steps
vars == <<host, at, things, steps>>
Init == /\ host \in Hosts
        /\ at \in PlacesOf(host) \cap Places
        /\ steps = 0
        /\ things = IF host = "runs" THEN <<Thing(<<>>, "mark", ""), Thing(<<1>>, "run", "")>>
                    ELSE <<Thing(<<>>, "table", ""), Thing(<<1>>, "row", ""), Thing(<<1, 1>>, "cell", "")>>
\* The things directly inside thing i, and what may be added there.
Inside(i) == {j \in DOMAIN things : Len(things[j].path) = Len(things[i].path) + 1
                                    /\ SubSeq(things[j].path, 1, Len(things[i].path)) = things[i].path}
Holds(h) == CASE h = "mark" -> {"run", "runpr"} [] h = "table" -> {"row"} [] h = "row" -> {"cell", "cpr"}
              [] h \in {"cell", "cpr"} -> {"table"} [] OTHER -> {}
Depth(p) == (Len(p) + 2) \div 3
Room(i) == /\ Cardinality(Inside(i)) < Widest
           /\ things[i].host \in {"cell", "cpr"} => Depth(things[i].path) < Deepest
\* A table comes with a row, and a row with a cell.
Comes(path, h, k) ==
  CASE h = "table" -> <<Thing(path, h, k), Thing(path \o <<1>>, "row", ""), Thing(path \o <<1, 1>>, "cell", "")>>
    [] h = "row" -> <<Thing(path, h, k), Thing(path \o <<1>>, "cell", "")>>
    [] OTHER -> <<Thing(path, h, k)>>
KindsOf(h) == IF h \in {"run", "runpr"} THEN Wrappers ELSE {""}
Add(i, h, k) == /\ h \in Holds(things[i].host)
                /\ Room(i)
                /\ things' = things \o Comes(Append(things[i].path, Cardinality(Inside(i)) + 1), h, k)
CallOn(i, c) == things' = [things EXCEPT ![i].calls = Append(@, c), ![i].state = Do(things[i].host, @, c)]
Grow(i) == \E h \in Holds(things[i].host) : \E k \in KindsOf(h) : Add(i, h, k)
Next ==
  /\ steps < Max
  /\ steps' = steps + 1
  /\ UNCHANGED <<host, at>>
  /\ IF ~Sampled THEN \E i \in DOMAIN things : Grow(i) \/ \E c \in CallsOf(things[i].host) : CallOn(i, c)
     ELSE \E i \in {RandomElement(DOMAIN things)} : \E dice \in {RandomElement(1..3)} :
            IF dice = 1 /\ Holds(things[i].host) # {} /\ Room(i)
            THEN \E h \in {RandomElement(Holds(things[i].host))} : \E k \in {RandomElement(KindsOf(h))} : Add(i, h, k)
            ELSE CallOn(i, RandomElement(CallsOf(things[i].host)))

\* What is seen of each thing, below its name.
N(k) == ToString(k - 1)
RECURSIVE Name(_)
Name(p) == CASE p = <<>> -> ""
             [] Len(p) = 1 -> "row[" \o N(p[1]) \o "]/"
             [] Len(p) = 2 -> "row[" \o N(p[1]) \o "]/cell[" \o N(p[2]) \o "]/"
             [] OTHER -> Name(SubSeq(p, 1, 2)) \o "in[" \o N(p[3]) \o "]/" \o Name(SubSeq(p, 4, Len(p)))
Prefix(t) == CASE t.host = "mark" -> "mark/"
               [] t.host \in {"run", "runpr"} -> "r[" \o N(t.path[1]) \o "]/"
               [] t.host = "table" -> Name(t.path) \o "tbl/"
               [] OTHER -> Name(t.path)
There(t) == IF t.host \in {"run", "runpr", "cell", "cpr"} THEN {SubSeq(Prefix(t), 1, Len(Prefix(t)) - 1)} ELSE {}
All(f(_)) == UNION {There(things[i]) \cup Below(Prefix(things[i]), f(things[i])) : i \in DOMAIN things}
Written(t) == Markup(t.host, t.state)
Read(t) == Report(t.host, Kept(t.host, t.state))
Again(t) == Markup(t.host, Kept(t.host, t.state))
RECURSIVE Tree(_)
Tree(i) == [host |-> things[i].host, kind |-> things[i].kind, calls |-> things[i].calls,
            parts |-> [n \in 1..Cardinality(Inside(i)) |-> Tree(CHOOSE j \in Inside(i) : things[j].path[Len(things[j].path)] = n)]]
Emit == steps = Max => PrintT(ToJson([host |-> host, at |-> at, kind |-> "", calls |-> things[1].calls, parts |-> Tree(1).parts,
                                      markup |-> All(Written), read |-> All(Read), again |-> All(Again)]))
\* On the specification: every thing is as its own calls leave it, whatever else is around it.
RECURSIVE After(_, _, _)
After(h, st, cs) == IF cs = <<>> THEN st ELSE After(h, Do(h, st, Head(cs)), Tail(cs))
OwnCallsOnly == \A i \in DOMAIN things :
                  things[i].state = After(things[i].host, InitOf(things[i].host, things[i].kind), things[i].calls)
\* ... and different things are told apart.
Apart == \A i, j \in DOMAIN things : i = j \/ things[i].path # things[j].path
=============================================================================
