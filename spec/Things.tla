------------------------------- MODULE Things -------------------------------
(* The kinds of things a document can hold, each with its own ids, and the   *)
(* calls that add the i-th thing of a kind.                                  *)
EXTENDS Content

Known == {"cprop", "docvar", "style", "custom", "list", "comment", "reply", "footnote", "picture", "same",
        "link", "anchor", "bookmark", "header", "heading", "toc", "webext", "insert", "delete", "table", "control", "section"}

S(i) == ToString(i)

One(k, i) ==
  CASE k = "cprop" -> <<L("cprop", "name" \o S(i) \o "=value" \o S(i))>>
    [] k = "docvar" -> <<L("docvar", "var" \o S(i) \o "=value" \o S(i))>>
    [] k = "style" -> <<L("style", "St" \o S(i) \o "|Style " \o S(i))>>
    [] k = "custom" -> <<L("custom", "c" \o S(i) \o "|<a><b>" \o S(i) \o "</b></a>")>>
    [] k = "list" -> <<N("absnum", S(i + 1), <<L("lvl", "0,1,decimal,%1.,left")>>),
                       N("num", S(i + 1) \o "," \o S(i + 1), <<>>),
                       Nd("p", "num=" \o S(i + 1) \o ",0;", "num", <<RT("item")>>)>>
    [] k = "comment" -> <<P(<<Nd("cs", S(100 + i), "|A" \o S(i) \o "|2024-01-01T00:00:00Z", <<PT("said " \o S(i))>>),
                              RT("x"), L("ce", S(100 + i))>>)>>
    [] k = "reply" -> <<P(<<Nd("cs", S(200 + i), "|A|2024-01-01T00:00:00Z", <<PT("asked " \o S(i))>>), RT("x"), L("ce", S(200 + i)),
                            Nd("cs", S(300 + i), "<" \o S(200 + i) \o "|B|2024-01-01T00:00:00Z", <<PT("told " \o S(i))>>), RT("y"), L("ce", S(300 + i))>>)>>
    [] k = "footnote" -> <<P(<<R(<<N("fn", "", <<PT("note " \o S(i))>>)>>)>>)>>
    [] k = "picture" -> <<P(<<R(<<L("img", "png" \o S(1 + (i % 4)))>>)>>)>>
    [] k = "same" -> <<P(<<R(<<L("img", "png1")>>)>>)>>
    [] k = "link" -> <<P(<<N("link", "http://example.com/" \o S(i), <<RT("l")>>)>>)>>
    [] k = "anchor" -> <<P(<<N("link", "#b" \o S(i), <<RT("l")>>)>>)>>
    [] k = "bookmark" -> <<P(<<L("bms", S(400 + i) \o ":b" \o S(i)), RT("m"), L("bme", S(400 + i))>>)>>
    [] k = "header" -> <<N("h", "default", <<P(<<R(<<L("img", "png2")>>)>>)>>), N("f", "even", <<PT("f" \o S(i))>>)>>
    [] k = "heading" -> <<L("style", "Heading" \o S(i) \o "|heading " \o S(i)), N("p", "style=Heading" \o S(i) \o ";", <<RT("head " \o S(i))>>)>>
    [] k = "toc" -> <<Nd("toc", "", "range=1-9;auto;link;", <<>>)>>
    [] k = "webext" -> <<L("webext", S(i)), L("pane", "")>>
    [] k = "insert" -> <<P(<<N("ins", "A|2024-01-01T00:00:00Z", <<RT("in")>>)>>)>>
    [] k = "delete" -> <<P(<<N("del", "A|2024-01-01T00:00:00Z", <<R(<<L("dt", "out")>>)>>)>>)>>
    [] k = "table" -> <<Tbl1(<<PT("cell " \o S(i))>>)>>
    [] k = "control" -> <<N("sdt", "", <<PT("held " \o S(i))>>)>>
    [] k = "section" -> <<N("sect", "", <<PT("part " \o S(i)), N("h", "default", <<PT("top " \o S(i))>>)>>)>>
=============================================================================
