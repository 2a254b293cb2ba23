------------------------------- MODULE Placing -------------------------------
(* Size and placement of pictures: each picture of a document receives a     *)
(* sequence of calls. INTENT: what is written and what is read back are the  *)
(* last values given, each in its own attribute; calls on one picture touch  *)
(* neither its other values nor another picture, even one with equal bytes.  *)
EXTENDS Content, Json

CONSTANTS Pics,      \* pictures per document
          Max,       \* calls per picture
          Bytes, Places,
          Sampled

VARIABLES pics       \* seq of [b, at, calls]

Offs == {"0", "-1", "914400", "2147483647", "-2147483648"}
Dist == {"0", "1", "114300", "2147483647"}
Als  == {"left", "right", "center", "top", "bottom"}
RelH == {"character", "column", "insideMargin", "leftMargin", "margin", "outsideMargin", "page", "rightMargin"}
RelV == {"margin", "page", "paragraph", "line", "topMargin", "bottomMargin", "insideMargin", "outsideMargin"}
Turn == [d \in {"0", "1", "45", "180", "360", "65535"} |->
          CASE d = "0" -> "0" [] d = "1" -> "60000" [] d = "45" -> "2700000" [] d = "180" -> "10800000"
            [] d = "360" -> "21600000" [] d = "65535" -> "3932100000"]

Calls == {<<"size", v>> : v \in {"1x1", "914400x457200", "457200x914400", "4294967295x3", "0x12700"}}
         \cup {<<"rot", v>> : v \in DOMAIN Turn}
         \cup {<<"float", "">>, <<"overlap", "">>, <<"sp", "1">>, <<"sp", "0">>}
         \cup ({"ox", "oy"} \X Offs) \cup ({"ph", "pv"} \X Als)
         \cup ({"rh"} \X RelH) \cup ({"rv"} \X RelV)
         \cup ({"dt", "db", "dl", "dr"} \X Dist)
         \cup ({"rhgt"} \X {"0", "1", "251658240", "4294967295"})

----------------------------------------------------------------------------
(* The meaning of the calls.                                                *)

\* 10 by 10 pixels for bytes of unknown format, else the picture's own pixels.
Own(b) == CASE b = "png1" -> "38100x19050" [] b = "png2" -> "47625x19050"
            [] b = "jpg1" -> "38100x28575" [] b = "raw1" -> "95250x95250"

New(b) == [size |-> Own(b), rot |-> "0", kind |-> "inline", overlap |-> "0", simple |-> "0",
           h |-> "offset 0", v |-> "offset 0", relH |-> "margin", relV |-> "margin",
           dt |-> "0", db |-> "0", dl |-> "0", dr |-> "0", z |-> "190500"]

Do(s, c) ==
  CASE c[1] = "size" -> [s EXCEPT !.size = c[2]]
    [] c[1] = "rot" -> [s EXCEPT !.rot = Turn[c[2]]]
    [] c[1] = "float" -> [s EXCEPT !.kind = "anchor"]
    [] c[1] = "overlap" -> [s EXCEPT !.overlap = "1"]
    [] c[1] = "sp" -> [s EXCEPT !.simple = c[2]]
    [] c[1] = "ox" -> [s EXCEPT !.h = "offset " \o c[2]]
    [] c[1] = "oy" -> [s EXCEPT !.v = "offset " \o c[2]]
    [] c[1] = "ph" -> [s EXCEPT !.h = "align " \o c[2]]
    [] c[1] = "pv" -> [s EXCEPT !.v = "align " \o c[2]]
    [] c[1] = "rh" -> [s EXCEPT !.relH = c[2]]
    [] c[1] = "rv" -> [s EXCEPT !.relV = c[2]]
    [] c[1] = "dt" -> [s EXCEPT !.dt = c[2]]
    [] c[1] = "db" -> [s EXCEPT !.db = c[2]]
    [] c[1] = "dl" -> [s EXCEPT !.dl = c[2]]
    [] c[1] = "dr" -> [s EXCEPT !.dr = c[2]]
    [] c[1] = "rhgt" -> [s EXCEPT !.z = c[2]]

RECURSIVE After(_, _)
After(s, cs) == IF cs = <<>> THEN s ELSE After(Do(s, Head(cs)), Tail(cs))

Meant(p) == After(New(p.b), p.calls)

\* What a floating picture shows and an inline one cannot.
Floats(s) == [simple |-> s.simple, overlap |-> s.overlap, z |-> s.z, h |-> s.h, v |-> s.v,
              relH |-> s.relH, relV |-> s.relV, wrap |-> IF s.overlap = "1" THEN "wrapNone" ELSE "wrapSquare"]

Seen(s) ==
  [kind |-> s.kind, extent |-> s.size, shape |-> s.size, rot |-> s.rot,
   dist |-> s.dt \o " " \o s.db \o " " \o s.dl \o " " \o s.dr,
   float |-> IF s.kind = "anchor" THEN Floats(s) ELSE "none"]

\* The reader knows offsets, not alignments, and not the rotation.
Known(s) ==
  [kind |-> s.kind, extent |-> s.size,
   dist |-> s.dt \o " " \o s.db \o " " \o s.dl \o " " \o s.dr,
   float |-> IF s.kind # "anchor" THEN "none"
             ELSE [simple |-> s.simple, overlap |-> s.overlap, z |-> s.z,
                   h |-> IF s.h \in {"align " \o a : a \in Als} THEN "any" ELSE s.h,
                   v |-> IF s.v \in {"align " \o a : a \in Als} THEN "any" ELSE s.v,
                   relH |-> s.relH, relV |-> s.relV]]

\* The JSON form of a document that was built has the alignment and the rotation, in degrees, as well.
Told(s) ==
  [kind |-> s.kind, extent |-> s.size, rot |-> CHOOSE d \in DOMAIN Turn : Turn[d] = s.rot,
   dist |-> s.dt \o " " \o s.db \o " " \o s.dl \o " " \o s.dr,
   float |-> IF s.kind # "anchor" THEN "none"
             ELSE [simple |-> s.simple, overlap |-> s.overlap, z |-> s.z, h |-> s.h, v |-> s.v, relH |-> s.relH, relV |-> s.relV]]

----------------------------------------------------------------------------
Init == pics = <<>>

Free == Places \ ({pics[i].at : i \in DOMAIN pics} \cap {"header", "footer", "cmt"})

Start(b, at) == /\ Len(pics) < Pics
                /\ pics' = Append(pics, [b |-> b, at |-> at, calls |-> <<>>])
Call(i, c) == /\ Len(pics[i].calls) < Max
              /\ pics' = [pics EXCEPT ![i].calls = Append(@, c)]

Open == {i \in DOMAIN pics : Len(pics[i].calls) < Max}

Next ==
  IF ~Sampled THEN \/ \E b \in Bytes, at \in Free : Start(b, at)
                   \/ \E i \in DOMAIN pics, c \in Calls : Call(i, c)
  ELSE IF Len(pics) < Pics THEN \E b \in {RandomElement(Bytes)}, at \in {RandomElement(Free)} : Start(b, at)
  ELSE Open # {} /\ \E i \in {RandomElement(Open)}, k \in {RandomElement({c[1] : c \in Calls})} :
                      \E c \in {RandomElement({x \in Calls : x[1] = k})} : Call(i, c)

\* Laws of the meaning: a call repeated changes nothing; calls of different kinds commute
\* unless both give the position along one axis.
Axis(k) == CASE k \in {"ox", "ph"} -> "h" [] k \in {"oy", "pv"} -> "v" [] OTHER -> k
Laws ==
  \A i \in DOMAIN pics : \A c \in Calls :
    LET s == Meant(pics[i]) IN
    /\ Do(Do(s, c), c) = Do(s, c)
    /\ \A j \in DOMAIN pics[i].calls : LET d == pics[i].calls[j] IN
         Axis(d[1]) # Axis(c[1]) => Do(Do(s, c), d) = Do(Do(s, d), c)

----------------------------------------------------------------------------
RECURSIVE Opts(_)
Opts(cs) == IF cs = <<>> THEN "" ELSE Head(cs)[1] \o "=" \o Head(cs)[2] \o ";" \o Opts(Tail(cs))

Par(p) == P(<<R(<<Nd("img", p.b, Opts(p.calls), <<>>)>>)>>)

Wrap(p) ==
  CASE p.at = "body" -> Par(p)
    [] p.at = "cell" -> Tbl1(<<Par(p)>>)
    [] p.at = "sdt" -> N("sdt", "", <<Par(p)>>)
    [] p.at = "sect" -> N("sect", "", <<Par(p)>>)
    [] p.at = "link" -> P(<<N("link", "http://example.com/b", Par(p).c)>>)
    [] p.at = "ins" -> P(<<N("ins", "A|2024-01-01T00:00:00Z", Par(p).c)>>)
    [] p.at = "header" -> N("h", "default", <<Par(p)>>)
    [] p.at = "footer" -> N("f", "default", <<Par(p)>>)
    [] p.at = "cmt" -> P(<<Nd("cs", "5", "|A|2024-01-01T00:00:00Z", <<Par(p)>>), RT("x"), L("ce", "5")>>)
    [] p.at = "fn" -> P(<<R(<<N("fn", "", <<Par(p)>>)>>)>>)

Root == N("docx", "", Map(LAMBDA p : Wrap(p), pics))

Fold(p) == <<p.b, p.at, Seen(Meant(p)), Known(Meant(p))>>

Complete == Len(pics) = Pics /\ (Sampled => Open = {})

What == Map(LAMBDA p : p.at \o "/" \o p.b \o "/" \o Opts(p.calls), pics)
Emit == Complete => PrintT(ToJson([what |-> What, calls |-> Root, pics |-> Map(LAMBDA p : Fold(p), pics)]))
EmitJson == Complete => PrintT(ToJson([what |-> What, calls |-> Root, json |-> JsonForm(Root),
                                       pics |-> Map(LAMBDA p : Told(Meant(p)), pics)]))
=============================================================================
