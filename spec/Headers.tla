------------------------------ MODULE Headers ------------------------------
(* Histories of header, footer and section calls: any order, any repetition. *)
EXTENDS Content, Json

CONSTANTS Max, Sampled

Slots == {<<k, v>> : k \in {"h", "f"}, v \in {"default", "first", "even"}}

\* Content is different for every call; every third story is a table, every fifth is empty.
Story0(x) == CASE x % 5 = 4 -> <<>>
              [] x % 3 = 2 -> <<Tbl1(<<PT("cell" \o ToString(x))>>)>>
              [] OTHER -> <<PT("story" \o ToString(x)), PT("more" \o ToString(x))>>
HF(s, x) == N(s[1], s[2], Story0(x))

\* A call is <<"p">>, <<"title">>, <<"hf", slot>>, <<"sect", inner calls>> or <<"end", slots, place>>,
\* a paragraph that ends a section and carries its properties.
Few == {<<"p">>, <<"title">>} \cup {<<"hf", s>> : s \in Slots}
       \cup {<<"sect", <<>>>>} \cup {<<"sect", <<s>>>> : s \in Slots}
       \cup {<<"sect", <<<<"h", "default">>, <<"p">>, <<"h", "default">>>>>>,
             <<"sect", <<<<"f", "first">>, <<"h", "first">>, <<"h", "even">>, <<"f", "default">>>>>>}
       \cup {<<"end", <<>>, "">>, <<"end", <<<<"h", "default">>>>, "">>, <<"end", <<<<"f", "first">>, <<"h", "even">>>>, "">>,
             <<"end", <<<<"f", "default">>>>, "sdt">>, <<"end", <<<<"h", "first">>>>, "sect">>}
Random == CASE RandomElement(1..10) <= 5 -> <<"hf", RandomElement(Slots)>>
         [] RandomElement(1..10) <= 6 -> <<"sect", [i \in 1..RandomElement(0..5) |-> RandomElement(Slots \cup {<<"p">>})]>>
         [] RandomElement(1..10) <= 5 -> <<"end", [i \in 1..RandomElement(0..3) |-> RandomElement(Slots)],
                                           RandomElement({"", "", "sdt", "sect"})>>
         [] OTHER -> RandomElement({<<"p">>, <<"title">>, <<"tbl">>})

Inner(calls, x) == [i \in DOMAIN calls |->
  IF calls[i] = <<"p">> THEN PT("in" \o ToString(x) \o "." \o ToString(i)) ELSE HF(calls[i], 10 * x + i)]

Do(s, x) ==
  CASE s[1] = "p" -> PT("p" \o ToString(x))
    [] s[1] = "tbl" -> Tbl1(<<PT("t" \o ToString(x))>>)
    [] s[1] = "title" -> L("titlepg", "")
    [] s[1] = "hf" -> HF(s[2], x)
    [] s[1] = "end" -> LET p == P(<<N("sp", "", Inner(s[2], x)), RT("end" \o ToString(x))>>)
                       IN IF s[3] = "" THEN p
                          ELSE IF s[3] = "sdt" THEN N("sdt", "", <<p>>)
                          ELSE N("sect", "", <<p, HF(<<"h", "default">>, x)>>)
    [] OTHER -> N("sect", "", Inner(s[2], x))

RECURSIVE Show(_)
Show(s) == CASE s[1] = "hf" -> s[2][1] \o s[2][2]
             [] s[1] = "sect" -> "sect(" \o Join(Map(LAMBDA i : Join(i, ""), s[2]), ",") \o ")"
             [] s[1] = "end" -> "end" \o s[3] \o "(" \o Join(Map(LAMBDA i : Join(i, ""), s[2]), ",") \o ")"
             [] OTHER -> s[1]

VARIABLES hist, doc
Init == hist = <<>> /\ doc = <<>>
Add(s) == /\ Len(hist) < Max
          /\ hist' = Append(hist, Show(s))
          /\ doc' = Append(doc, Do(s, Len(hist) + 1))
Next == IF Sampled THEN LET s == Random IN Add(s) ELSE \E s \in Few : Add(s)

Root == N("docx", "", doc)
Complete == Len(hist) = Max
Emit == Complete => PrintT(ToJson([what |-> hist, calls |-> Root, see |-> Observation(Root)]))
=============================================================================
