------------------------------- MODULE Format -------------------------------
(* Formatting. The state of a formatted thing (its host) is a function from   *)
(* the place of a setting in the markup ("sz@val", "tblBorders/top@color", a  *)
(* switch such as "b") to its value; every setter call is a transition on     *)
(* that function: it says which places it sets and which it clears, and       *)
(* thereby that it leaves all others alone. What the package must say, and    *)
(* what the reader must report, are read off the state.                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT Values      \* "all": every value of every setting; "few": two of each

C(s, v, kv) == [s |-> s, v |-> v, kv |-> kv]
Empty == [p \in {} |-> ""]
Put(st, p, v) == (p :> v) @@ st
Without(st, D) == [p \in DOMAIN st \ D |-> st[p]]
RECURSIVE PutAll(_, _, _)
PutAll(st, pre, kv) ==
  IF kv = <<>> THEN st ELSE PutAll(Put(st, pre \o Head(kv)[1], Head(kv)[2]), pre, Tail(kv))
Has(kv, k) == \E i \in 1..Len(kv) : kv[i][1] = k
Prefixed(p, pre) == Len(p) >= Len(pre) /\ SubSeq(p, 1, Len(pre)) = pre
Clear(st, pre) == Without(st, {p \in DOMAIN st : Prefixed(p, pre)})
\* Replace everything below a place.
Set(st, pre, kv) == PutAll(Clear(st, pre), pre, kv)
Str(S) == {ToString(n) : n \in S}
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

-----------------------------------------------------------------------------
\* Values
ThemeColors == {"dark1", "light1", "dark2", "light2", "accent1", "accent2", "accent3", "accent4", "accent5", "accent6",
                "hyperlink", "followedHyperlink", "none", "background1", "text1", "background2", "text2"}
Lines == {"none", "single", "thick", "double", "dotted", "dashed", "dotDash", "dotDotDash", "triple",
          "thinThickSmallGap", "thickThinSmallGap", "thinThickThinSmallGap", "thinThickMediumGap",
          "thickThinMediumGap", "thinThickThinMediumGap", "thinThickLargeGap", "thickThinLargeGap",
          "thinThickThinLargeGap", "wave", "doubleWave", "dashSmallGap", "dashDotStroked", "threeDEmboss",
          "threeDEngrave", "outset", "inset", "apples", "archedScallops", "babyPacifier", "babyRattle"}
Shades == {"nil", "clear", "solid", "horzStripe", "vertStripe", "reverseDiagStripe", "diagStripe", "horzCross",
           "diagCross", "thinHorzStripe", "thinVertStripe", "thinReverseDiagStripe", "thinDiagStripe", "thinHorzCross",
           "thinDiagCross", "pct5", "pct10", "pct12", "pct15", "pct20", "pct25", "pct30", "pct35", "pct37", "pct40",
           "pct45", "pct50", "pct55", "pct60", "pct62", "pct65", "pct70", "pct75", "pct80", "pct85", "pct87", "pct90",
           "pct95"}
Underlines == {"single", "words", "double", "thick", "dotted", "dottedHeavy", "dash", "dashedHeavy", "dashLong",
               "dashLongHeavy", "dotDash", "dashDotHeavy", "dotDotDash", "dashDotDotHeavy", "wave", "wavyHeavy",
               "wavyDouble", "none"}
Highlights == {"black", "blue", "cyan", "green", "magenta", "red", "yellow", "white", "darkBlue", "darkCyan",
               "darkGreen", "darkMagenta", "darkRed", "darkYellow", "darkGray", "lightGray", "none"}
Colors == {"000000", "FF0000", "00ff00", "auto", "1234AB"}
Bytes2 == {"00", "BF", "99", "ff"}
Aligns == {"both", "center", "distribute", "start", "end", "left", "right", "justified"}
Leaders == {"dot", "heavy", "hyphen", "middleDot", "none", "underscore"}
TabKinds == {"bar", "center", "clear", "decimal", "end", "right", "num", "start", "left"}
Anchors == {"text", "margin", "page"}
WidthTypes == {"dxa", "auto", "pct", "nil"}
Directions == {"lr", "lrV", "rl", "rlV", "tb", "tbV", "tbRlV", "tbRl", "btLr", "lrTbV"}
OnOff == {"on", "off"}
Small == {"1", "2"}
Nums == Str({1, 2, 9, 10, 99, 240, 1440, 31680, 65536, 16777215})
Zero == Nums \cup {"0"}
Signed == Zero \cup {"-1", "-20", "-1440", "-16777215"}

\* The values to use of a set: all of them, or two.
Some(S) == IF Values = "all" THEN S
           ELSE LET a == CHOOSE x \in S : TRUE
                    T == S \ {a}
                IN {a} \cup (IF T = {} THEN {} ELSE {CHOOSE x \in T : TRUE})
Ones(s, S) == {C(s, <<x>>, <<>>) : x \in Some(S)}
No(s) == {C(s, <<>>, <<>>)}
\* One named argument at a time (every value), and all of them at once.
Named(s, v, doms) ==
  LET first(k) == CHOOSE x \in doms[k] : TRUE
      other(k) == CHOOSE x \in doms[k] : x # first(k) \/ doms[k] = {x}
  IN UNION {{C(s, v, <<<<k, x>>>>) : x \in Some(doms[k])} : k \in DOMAIN doms}
     \cup {C(s, v, [i \in 1..Cardinality(DOMAIN doms) |-> <<SetToSeq(DOMAIN doms)[i], f[SetToSeq(DOMAIN doms)[i]]>>])
             : f \in {[k \in DOMAIN doms |-> first(k)], [k \in DOMAIN doms |-> other(k)]}}

FontD == [ascii |-> {"Arial", "A b"}, hAnsi |-> {"Arial", "H"}, eastAsia |-> {"MS Mincho", "E"}, cs |-> {"Arial", "X"},
          asciiTheme |-> {"majorHAnsi", "minorAscii"}, hAnsiTheme |-> {"majorHAnsi", "minorHAnsi"},
          eastAsiaTheme |-> {"majorEastAsia", "minorEastAsia"}, cstheme |-> {"majorBidi", "minorBidi"},
          hint |-> {"eastAsia", "cs", "default"}]
BorderD == [val |-> Lines, sz |-> Zero, space |-> {"0", "1", "31"}, color |-> Colors]
PlainBorderD == [val |-> Lines, sz |-> Zero, color |-> Colors]
ShadeD == [val |-> Shades, color |-> Colors, fill |-> Colors]
SpacingD == [before |-> Zero, after |-> Zero, beforeLines |-> Zero, afterLines |-> Zero, line |-> Signed,
             lineRule |-> {"auto", "atLeast", "exact"}]
FrameD == [wrap |-> {"auto", "notBeside", "around", "tight", "through", "none"}, vAnchor |-> Anchors, hAnchor |-> Anchors,
           hRule |-> {"auto", "atLeast", "exact"}, xAlign |-> {"left", "center", "right", "inside", "outside"},
           yAlign |-> {"inline", "top", "center", "bottom", "inside", "outside"}, hSpace |-> Zero, vSpace |-> Zero,
           x |-> Signed, y |-> Signed, w |-> Zero, h |-> Zero]
PositionD == [leftFromText |-> Zero, rightFromText |-> Zero, vertAnchor |-> Anchors, horzAnchor |-> Anchors,
              tblpXSpec |-> {"left", "center", "right", "inside", "outside"},
              tblpYSpec |-> {"inline", "top", "center", "bottom", "inside", "outside"}, tblpX |-> Signed, tblpY |-> Signed]
SideD == [top |-> Zero, right |-> Zero, bottom |-> Zero, left |-> Zero]
MarginD == [top |-> Signed, left |-> Zero, bottom |-> Signed, right |-> Zero, header |-> Zero, footer |-> Zero,
            gutter |-> Zero]
SizeD == [w |-> Nums, h |-> Nums, orient |-> {"landscape", "portrait"}]
GridD == [type |-> {"default", "lines", "linesAndChars", "snapToChars"}, linePitch |-> Zero, charSpace |-> Signed]
PageNumD == [start |-> Zero, chapStyle |-> Small]

-----------------------------------------------------------------------------
\* Characters
Twice(st, a, b, v) == Put(Put(st, a, v), b, v)
Shade(st, pre, kv) ==
  PutAll(PutAll(st, pre, <<<<"val", "clear">>, <<"color", "auto">>, <<"fill", "FFFFFF">>>>), pre, kv)
Themed(st, k, v) == Put(IF "color@val" \in DOMAIN st THEN st ELSE Put(st, "color@val", "auto"), "color@" \o k, v)
Run(st, c) ==
  LET v == c.v  kv == c.kv IN
  CASE c.s = "style" -> Put(st, "rStyle@val", v[1])
    [] c.s = "size" -> Twice(st, "sz@val", "szCs@val", v[1])
    [] c.s \in {"spacing", "character_spacing"} -> Put(st, "spacing@val", v[1])
    [] c.s = "stretch" -> Put(st, "w@val", v[1])
    [] c.s = "color" -> Put(Clear(st, "color@"), "color@val", v[1])
    [] c.s = "theme_color" -> Themed(st, "themeColor", v[1])
    [] c.s = "theme_shade" -> Themed(st, "themeShade", v[1])
    [] c.s = "theme_tint" -> Themed(st, "themeTint", v[1])
    [] c.s = "highlight" -> Put(st, "highlight@val", v[1])
    [] c.s = "vert_align" -> Put(st, "vertAlign@val", v[1])
    [] c.s = "bold" -> Twice(st, "b", "bCs", "on")
    [] c.s = "disable_bold" -> Twice(st, "b", "bCs", "off")
    [] c.s = "italic" -> Twice(st, "i", "iCs", "on")
    [] c.s = "disable_italic" -> Twice(st, "i", "iCs", "off")
    [] c.s = "caps" -> Put(st, "caps", "on")
    \* one kind of line through the text at a time
    [] c.s = "strike" -> Put(Without(st, {"dstrike"}), "strike", "on")
    [] c.s = "dstrike" -> Put(Without(st, {"strike"}), "dstrike", "on")
    [] c.s = "disable_strike" -> Put(st, "strike", "off")
    [] c.s = "disable_dstrike" -> Put(st, "dstrike", "off")
    [] c.s = "underline" -> Put(st, "u@val", v[1])
    [] c.s = "vanish" -> Put(st, "vanish", "on")
    [] c.s = "spec_vanish" -> Put(st, "specVanish", "on")
    [] c.s = "fonts" -> Set(st, "rFonts@", kv)
    [] c.s = "fit_text" -> Set(st, "fitText@", IF v[2] = "-" THEN <<<<"val", v[1]>>>> ELSE <<<<"val", v[1]>>, <<"id", v[2]>>>>)
    [] c.s = "text_border" -> PutAll(Set(st, "bdr@", <<<<"val", "single">>, <<"sz", "4">>, <<"space", "0">>, <<"color", "auto">>>>), "bdr@", kv)
    [] c.s = "ptab" -> Set(st, "ptab@", <<<<"alignment", v[1]>>, <<"relativeTo", v[2]>>, <<"leader", v[3]>>>>)
    [] c.s = "shading" -> Shade(st, "shd@", kv)
Size == Ones("size", Str({1, 2, 21, 22, 144, 3276}))
Spacing(s) == Ones(s, Str(0..3) \cup {"-1", "-20", "200", "31680"})
Fonts == Named("fonts", <<>>, FontD)
\* What every host of character settings offers.
RunBasic == Size \cup Ones("color", Colors) \cup No("bold") \cup No("italic") \cup Fonts
RunMore == RunBasic \cup Ones("highlight", Highlights) \cup Ones("underline", Underlines) \cup No("vanish")
Theme == Ones("theme_color", ThemeColors) \cup Ones("theme_shade", Bytes2) \cup Ones("theme_tint", Bytes2)
TextBorder == Named("text_border", <<>>, BorderD)
Shading == Named("shading", <<>>, ShadeD)
RunCalls == RunMore \cup Theme \cup TextBorder \cup Shading \cup Spacing("character_spacing")
            \cup Ones("stretch", Str({1, 50, 100, 150, 600})) \cup Ones("style", {"S1", "Heading 1"})
            \cup No("disable_bold") \cup No("disable_italic") \cup No("strike") \cup No("dstrike")
RunPropCalls == RunCalls \cup Spacing("spacing") \cup No("caps") \cup No("spec_vanish")
                \cup No("disable_strike") \cup No("disable_dstrike")
                \cup Ones("vert_align", {"baseline", "superscript", "subscript"})
                \cup {C("fit_text", <<n, i>>, <<>>) : n \in Some(Zero), i \in {"-", "0", "1", "2147483648", "4294967295"}}
                \cup {C("ptab", <<a, r, l>>, <<>>) : a \in {"left", "center", "right"}, r \in {"indent", "margin"}, l \in Some(Leaders)}
RunJ == ("rStyle@val" :> "style") @@ ("sz@val" :> "sz") @@ ("szCs@val" :> "szCs") @@ ("spacing@val" :> "characterSpacing")
        @@ ("w@val" :> "stretch") @@ ("color@val" :> "color") @@ ("highlight@val" :> "highlight")
        @@ ("vertAlign@val" :> "vertAlign") @@ ("u@val" :> "underline") @@ ("b" :> "bold") @@ ("bCs" :> "boldCs")
        @@ ("i" :> "italic") @@ ("iCs" :> "italicCs") @@ ("caps" :> "caps") @@ ("strike" :> "strike")
        @@ ("dstrike" :> "dstrike") @@ ("vanish" :> "vanish") @@ ("specVanish" :> "specVanish")
        @@ ("rFonts@ascii" :> "fonts.ascii") @@ ("rFonts@hAnsi" :> "fonts.hiAnsi") @@ ("rFonts@eastAsia" :> "fonts.eastAsia")
        @@ ("rFonts@cs" :> "fonts.cs") @@ ("rFonts@asciiTheme" :> "fonts.asciiTheme")
        @@ ("rFonts@hAnsiTheme" :> "fonts.hiAnsiTheme") @@ ("rFonts@eastAsiaTheme" :> "fonts.eastAsiaTheme")
        @@ ("rFonts@cstheme" :> "fonts.csTheme") @@ ("rFonts@hint" :> "fonts.hint")
        @@ ("fitText@val" :> "fitText.val") @@ ("fitText@id" :> "fitText.id")
        @@ ("bdr@val" :> "textBorder.borderType") @@ ("bdr@sz" :> "textBorder.size") @@ ("bdr@space" :> "textBorder.space")
        @@ ("bdr@color" :> "textBorder.color")
        @@ ("ptab@alignment" :> "positionalTab.alignment") @@ ("ptab@relativeTo" :> "positionalTab.relativeTo")
        @@ ("ptab@leader" :> "positionalTab.leader")
        @@ ("shd@val" :> "shading.shdType") @@ ("shd@color" :> "shading.color") @@ ("shd@fill" :> "shading.fill")

-----------------------------------------------------------------------------
\* Borders: a border that is switched off has no other attributes.
Sides == {"left", "right", "top", "bottom"}
BorderAttr(b, k) == b \o "@" \o k
OneBorder(st, b, d) == Set(st, b \o "@", d)
RECURSIVE EachBorder(_, _, _, _)
EachBorder(st, pre, ps, d) == IF ps = {} THEN st ELSE LET p == CHOOSE x \in ps : TRUE IN EachBorder(OneBorder(st, pre \o p, d), pre, ps \ {p}, d)
HasAny(st, pre) == \E p \in DOMAIN st : Prefixed(p, pre)
Nil == <<<<"val", "nil">>>>
\* d: what a border is like unless told otherwise; first: the borders that are there once one is set.
Borders(st, c, pre, d, first, all) ==
  LET base == IF HasAny(st, pre) THEN st ELSE EachBorder(st, pre, first, d)
      \* the arguments given, over the defaults
      made(s, p) == PutAll(OneBorder(s, pre \o p, d), pre \o p \o "@", c.kv)
      RECURSIVE many(_, _)
      many(s, i) == IF i > Len(c.v) THEN s ELSE many(made(s, c.v[i]), i + 1)
  IN CASE c.s \in {"set_border", "t_set_border", "c_set_border"} -> made(base, c.v[1])
       [] c.s \in {"set_borders", "t_set_borders", "c_set_borders"} -> many(Clear(st, pre), 1)
       [] c.s \in {"clear_border", "t_clear_border", "c_clear_border"} -> OneBorder(base, pre \o c.v[1], Nil)
       [] OTHER -> EachBorder(st, pre, all, Nil)
BorderCalls(pre, all, dom, clearall) ==
  UNION {Named(pre \o "set_border", <<p>>, dom) : p \in Some(all)}
  \cup {C(pre \o "set_borders", <<p, q>>, <<<<"sz", "7">>>>) : p, q \in Some(all)}
  \cup {C(pre \o "clear_border", <<p>>, <<>>) : p \in Some(all)}
  \cup No(clearall)
BorderJ(pre, j, all, val) ==
  LET one(p) == ((pre \o p \o "@val") :> (j \o p \o "." \o val)) @@ ((pre \o p \o "@sz") :> (j \o p \o ".size"))
                @@ ((pre \o p \o "@space") :> (j \o p \o ".space")) @@ ((pre \o p \o "@color") :> (j \o p \o ".color"))
      RECURSIVE each(_)
      each(ps) == IF ps = {} THEN Empty ELSE LET p == CHOOSE x \in ps : TRUE IN one(p) @@ each(ps \ {p})
  IN each(all)

-----------------------------------------------------------------------------
\* Paragraphs
PSides == Sides \cup {"between", "bar"}
PDefault == <<<<"val", "single">>, <<"sz", "2">>, <<"space", "0">>, <<"color", "auto">>>>
\* "kind,leader,position"
Tab(k, l, n) == [arg |-> k \o "," \o l \o "," \o n,
                 kv |-> (IF k = "-" THEN <<>> ELSE <<<<"val", k>>>>) \o (IF l = "-" THEN <<>> ELSE <<<<"leader", l>>>>)
                        \o (IF n = "-" THEN <<>> ELSE <<<<"pos", n>>>>)]
SomeTabs == {Tab(k, "-", "100") : k \in Some(TabKinds)} \cup {Tab("left", l, "720") : l \in Some(Leaders)}
            \cup {Tab("right", "dot", n) : n \in Some(Zero)}
TabOf(a) == CHOOSE t \in {Tab(k, l, n) : k \in TabKinds, l \in Leaders \cup {"-"}, n \in Zero \cup {"100", "720"}} : t.arg = a
Tabs(st) == Cardinality({i \in 0..40 : HasAny(st, "tabs/tab[" \o ToString(i) \o "]")})
AddTab(st, t) == PutAll(st, "tabs/tab[" \o ToString(Tabs(st)) \o "]@", t.kv)
RECURSIVE AddTabs(_, _, _)
AddTabs(st, v, i) == IF i > Len(v) THEN st ELSE AddTabs(AddTab(st, TabOf(v[i])), v, i + 1)
Or0(x) == IF x = "-" THEN "0" ELSE x
\* "firstLine:20", "hanging:20" or none.
IsFirst(x) == Prefixed(x, "firstLine:")
Indent(st, v) ==
  Set(st, "ind@", <<<<"left", Or0(v[1])>>, <<"right", Or0(v[3])>>>>
      \o (IF v[2] = "-" THEN <<>> ELSE IF IsFirst(v[2]) THEN <<<<"firstLine", SubSeq(v[2], 11, Len(v[2]))>>>>
                                                       ELSE <<<<"hanging", SubSeq(v[2], 9, Len(v[2]))>>>>)
      \o (IF v[4] = "-" THEN <<>> ELSE <<<<"leftChars", v[4]>>>>))
Level9(n) == IF n \in Str(0..9) THEN n ELSE "9"
InFrame == {"wrap", "v_anchor", "h_anchor", "h_rule", "x_align", "y_align", "h_space", "v_space", "frame_x", "frame_y",
            "frame_width", "frame_height"}
FrameName(s) ==
  CASE s = "wrap" -> "wrap" [] s = "v_anchor" -> "vAnchor" [] s = "h_anchor" -> "hAnchor" [] s = "h_rule" -> "hRule"
    [] s = "x_align" -> "xAlign" [] s = "y_align" -> "yAlign" [] s = "h_space" -> "hSpace" [] s = "v_space" -> "vSpace"
    [] s = "frame_x" -> "x" [] s = "frame_y" -> "y" [] s = "frame_width" -> "w" [] OTHER -> "h"
Para(st, c) ==
  LET v == c.v  kv == c.kv IN
  CASE c.s = "align" -> Put(st, "jc@val", IF v[1] = "justified" THEN "both" ELSE v[1])
    [] c.s = "style" -> Put(st, "pStyle@val", v[1])
    [] c.s = "indent" -> Indent(st, v)
    \* character units refine an indent that was set
    [] c.s = "hanging_chars" -> IF HasAny(st, "ind@") THEN Put(st, "ind@hangingChars", v[1]) ELSE st
    [] c.s = "first_line_chars" -> IF HasAny(st, "ind@") THEN Put(st, "ind@firstLineChars", v[1]) ELSE st
    [] c.s = "numbering" -> Put(Put(st, "numPr/numId@val", v[1]), "numPr/ilvl@val", v[2])
    [] c.s = "line_spacing" -> Set(st, "spacing@", kv)
    [] c.s = "snap_to_grid" -> Put(st, "snapToGrid", v[1])
    [] c.s = "keep_next" -> Put(st, "keepNext", v[1])
    [] c.s = "keep_lines" -> Put(st, "keepLines", v[1])
    [] c.s = "page_break_before" -> Put(st, "pageBreakBefore", v[1])
    [] c.s = "widow_control" -> Put(st, "widowControl", v[1])
    [] c.s = "bidi" -> Put(st, "bidi", v[1])
    [] c.s = "outline_lvl" -> Put(st, "outlineLvl@val", Level9(v[1]))
    [] c.s = "add_tab" -> AddTab(st, TabOf(v[1]))
    [] c.s = "tabs" -> AddTabs(st, v, 1)
    [] c.s = "frame_property" -> Set(st, "framePr@", kv)
    [] c.s \in InFrame -> Put(st, "framePr@" \o FrameName(c.s), v[1])
    [] c.s = "text_alignment" -> Put(st, "textAlignment@val", v[1])
    [] c.s = "adjust_right_ind" -> Put(st, "adjustRightInd", IF v[1] = "0" THEN "off" ELSE "on")
    [] c.s = "shading" -> Shade(st, "shd@", kv)
    [] OTHER -> Borders(st, c, "pBdr/", PDefault, Sides, PSides)

Indents == {C("indent", <<l, "-", "-", "-">>, <<>>) : l \in Some(Signed)}
           \cup {C("indent", <<"720", s, "-", "-">>, <<>>) : s \in Some({"firstLine:" \o n : n \in Zero} \cup {"hanging:" \o n : n \in Zero})}
           \cup {C("indent", <<"-", "hanging:20", r, "-">>, <<>>) : r \in Some(Signed)}
           \cup {C("indent", <<"-", "-", "-", n>>, <<>>) : n \in Some(Signed)}
Chars == Ones("hanging_chars", Nums) \cup Ones("first_line_chars", Nums)
Frames == Ones("wrap", FrameD.wrap) \cup Ones("v_anchor", Anchors) \cup Ones("h_anchor", Anchors)
          \cup Ones("h_rule", FrameD.hRule) \cup Ones("x_align", FrameD.xAlign) \cup Ones("y_align", FrameD.yAlign)
          \cup Ones("h_space", Zero) \cup Ones("v_space", Zero) \cup Ones("frame_x", Signed) \cup Ones("frame_y", Signed)
          \cup Ones("frame_width", Zero) \cup Ones("frame_height", Zero)
ParaBasic == Ones("align", Aligns) \cup Ones("snap_to_grid", OnOff) \cup Indents \cup Named("line_spacing", <<>>, SpacingD)
             \cup Ones("outline_lvl", Str(0..11))
ParaBoth == ParaBasic \cup Ones("style", {"S1", "Normal"}) \cup Ones("keep_next", OnOff) \cup Ones("keep_lines", OnOff)
            \cup Ones("page_break_before", OnOff) \cup Ones("widow_control", OnOff)
            \cup {C("add_tab", <<t.arg>>, <<>>) : t \in SomeTabs}
            \cup {C("numbering", <<n, l>>, <<>>) : n \in Some(Nums), l \in Some(Str(0..8))}
ParaPropCalls == ParaBoth \cup Ones("bidi", OnOff) \cup Shading \cup Named("frame_property", <<>>, FrameD)
                 \cup Ones("text_alignment", {"auto", "baseline", "bottom", "center", "top"})
                 \cup Ones("adjust_right_ind", {"0", "1"})
                 \cup BorderCalls("", PSides, BorderD, "clear_all_borders")
ParaMark == RunBasic \cup Spacing("character_spacing")
ParaCalls == ParaBoth \cup Frames \cup Chars
             \cup {C("tabs", <<a.arg, b.arg>>, <<>>) : a, b \in {Tab("left", "dot", "1"), Tab("right", "-", "720"), Tab("center", "none", "0")}}
ParaJ == ("jc@val" :> "alignment") @@ ("pStyle@val" :> "style") @@ ("ind@left" :> "indent.start") @@ ("ind@right" :> "indent.end")
         @@ ("ind@leftChars" :> "indent.startChars") @@ ("ind@hangingChars" :> "indent.hangingChars")
         @@ ("ind@firstLineChars" :> "indent.firstLineChars")
         @@ ("numPr/numId@val" :> "numberingProperty.id") @@ ("numPr/ilvl@val" :> "numberingProperty.level")
         @@ ("spacing@before" :> "lineSpacing.before") @@ ("spacing@after" :> "lineSpacing.after")
         @@ ("spacing@beforeLines" :> "lineSpacing.beforeLines") @@ ("spacing@afterLines" :> "lineSpacing.afterLines")
         @@ ("spacing@line" :> "lineSpacing.line") @@ ("spacing@lineRule" :> "lineSpacing.lineRule")
         @@ ("snapToGrid" :> "snapToGrid") @@ ("keepNext" :> "keepNext") @@ ("keepLines" :> "keepLines")
         @@ ("pageBreakBefore" :> "pageBreakBefore") @@ ("widowControl" :> "widowControl") @@ ("bidi" :> "bidi")
         @@ ("outlineLvl@val" :> "outlineLvl") @@ ("textAlignment@val" :> "textAlignment")
         @@ [p \in {"framePr@" \o k : k \in DOMAIN FrameD} |-> "frameProperty." \o SubSeq(p, 9, Len(p))]
         @@ ("shd@val" :> "shading.shdType") @@ ("shd@color" :> "shading.color") @@ ("shd@fill" :> "shading.fill")
         @@ BorderJ("pBdr/", "borders.", PSides, "val")
         @@ [p \in {"tabs/tab[" \o ToString(i) \o "]@" \o k : i \in 0..9, k \in {"val", "leader", "pos"}}
               |-> "tabs" \o SubSeq(p, 9, 11) \o "." \o SubSeq(p, 13, Len(p))]

-----------------------------------------------------------------------------
\* Tables
TSides == Sides \cup {"insideH", "insideV"}
CSides == TSides \cup {"tl2br", "tr2bl"}
TDefault == <<<<"val", "single">>, <<"sz", "2">>, <<"space", "0">>, <<"color", "000000">>>>
Width(st, p, n, t) == Put(Put(st, p \o "@w", n), p \o "@type", t)
RECURSIVE Widths(_, _, _, _)
Widths(st, pre, kv, t) == IF kv = <<>> THEN st ELSE Widths(Width(st, pre \o Head(kv)[1], Head(kv)[2], t), pre, Tail(kv), t)
Margins0 == <<<<"top", "0">>, <<"left", "55">>, <<"bottom", "0">>, <<"right", "55">>>>
CellMar(st) == IF HasAny(st, "tblCellMar/") THEN st ELSE Widths(st, "tblCellMar/", Margins0, "dxa")
TableInit == Width(Put(EachBorder(Empty, "tblBorders/", TSides, TDefault), "jc@val", "left"), "tblW", "0", "auto")
Bare == Clear(TableInit, "tblBorders/")
RECURSIVE Grid(_, _, _)
Grid(st, v, i) == IF i > Len(v) THEN st ELSE Grid(Put(st, "gridCol[" \o ToString(i - 1) \o "]@w", v[i]), v, i + 1)
Table(st, c) ==
  LET v == c.v  kv == c.kv IN
  CASE c.s = "set_grid" -> Grid(Clear(st, "gridCol["), v, 1)
    [] c.s \in {"t_indent", "table_indent"} -> Width(st, "tblInd", v[1], "dxa")
    [] c.s \in {"t_align", "table_align"} -> Put(st, "jc@val", v[1])
    [] c.s = "t_style" -> Put(st, "tblStyle@val", v[1])
    [] c.s = "layout" -> Put(st, "tblLayout@type", v[1])
    [] c.s = "position" -> Set(st, "tblpPr@", kv)
    [] c.s = "width" -> Width(st, "tblW", v[1], v[2])
    [] c.s \in {"margins", "set_margins"} -> Widths(Widths(st, "tblCellMar/", Margins0, "dxa"), "tblCellMar/", kv, v[1])
    [] c.s = "cell_margin_top" -> Width(CellMar(st), "tblCellMar/top", v[1], v[2])
    [] c.s = "cell_margin_right" -> Width(CellMar(st), "tblCellMar/right", v[1], v[2])
    [] c.s = "cell_margin_bottom" -> Width(CellMar(st), "tblCellMar/bottom", v[1], v[2])
    [] c.s = "cell_margin_left" -> Width(CellMar(st), "tblCellMar/left", v[1], v[2])
    [] OTHER -> Borders(st, c, "tblBorders/", TDefault, {}, TSides)
Pairs(s) == {C(s, <<n, t>>, <<>>) : n \in Some(Zero), t \in Some(WidthTypes)}
TableProps == Ones("layout", {"fixed", "autofit"}) \cup Ones("t_style", {"TS", "Table Grid"}) \cup Pairs("width")
              \cup BorderCalls("t_", TSides, PlainBorderD, "clear_all_border")
TableBoth == TableProps \cup Ones("t_indent", Signed) \cup Ones("t_align", {"left", "center", "right"})
             \cup Named("position", <<>>, PositionD)
MarginCalls(s) == UNION {Named(s, <<t>>, SideD) : t \in Some(WidthTypes)}
TableCalls == TableBoth \cup MarginCalls("margins")
              \cup {C("set_grid", g, <<>>) : g \in {<<"1">>, <<"100", "200">>, <<"2000", "0", "9", "31680">>, <<>>}}
TablePropCalls == TableBoth \cup MarginCalls("set_margins") \cup Pairs("cell_margin_top") \cup Pairs("cell_margin_right")
                  \cup Pairs("cell_margin_bottom") \cup Pairs("cell_margin_left")
SidesJ(pre, j, one) == [p \in {pre \o s \o "@" \o k : s \in Sides, k \in {"w", "type"}} |->
                          LET s == CHOOSE s \in Sides : Prefixed(p, pre \o s \o "@") IN
                          j \o s \o (IF p = pre \o s \o "@w" THEN ".val" ELSE ".widthType")]
TableJ == ("jc@val" :> "justification") @@ ("tblW@w" :> "width.width") @@ ("tblW@type" :> "width.widthType")
          @@ ("tblInd@w" :> "indent.width") @@ ("tblInd@type" :> "indent.widthType") @@ ("tblStyle@val" :> "style")
          @@ ("tblLayout@type" :> "layout")
          @@ ("tblpPr@leftFromText" :> "position.leftFromText") @@ ("tblpPr@rightFromText" :> "position.rightFromText")
          @@ ("tblpPr@vertAnchor" :> "position.verticalAnchor") @@ ("tblpPr@horzAnchor" :> "position.horizontalAnchor")
          @@ ("tblpPr@tblpXSpec" :> "position.positionXAlignment") @@ ("tblpPr@tblpYSpec" :> "position.positionYAlignment")
          @@ ("tblpPr@tblpX" :> "position.positionX") @@ ("tblpPr@tblpY" :> "position.positionY")
          @@ SidesJ("tblCellMar/", "margins.", TRUE)
          @@ BorderJ("tblBorders/", "borders.", TSides, "borderType")
          @@ [p \in {"gridCol[" \o ToString(i) \o "]@w" : i \in 0..9} |-> "grid" \o SubSeq(p, 8, 10)]

RowInit == Empty
Row(st, c) ==
  LET v == c.v IN
  CASE c.s = "grid_after" -> Put(st, "gridAfter@val", v[1])
    [] c.s = "grid_before" -> Put(st, "gridBefore@val", v[1])
    [] c.s = "width_after" -> Width(st, "wAfter", v[1], "dxa")
    [] c.s = "width_before" -> Width(st, "wBefore", v[1], "dxa")
    [] c.s = "row_height" -> Put(st, "trHeight@val", v[1])
    [] c.s = "height_rule" -> Put(st, "trHeight@hRule", v[1])
    [] c.s = "cant_split" -> Put(st, "cantSplit", "on")
\* The rule says how a height is meant: without a height there is nothing to say.
RowSeen(st) ==
  IF "trHeight@val" \notin DOMAIN st THEN Without(st, {"trHeight@hRule"})
  ELSE IF "trHeight@hRule" \in DOMAIN st THEN st ELSE Put(st, "trHeight@hRule", "atLeast")
RowCalls == Ones("grid_after", Zero) \cup Ones("grid_before", Zero) \cup Ones("width_after", Zero) \cup Ones("width_before", Zero)
            \cup Ones("row_height", Zero) \cup Ones("height_rule", {"auto", "atLeast", "exact"}) \cup No("cant_split")
RowJ == ("gridAfter@val" :> "gridAfter") @@ ("gridBefore@val" :> "gridBefore") @@ ("wAfter@w" :> "widthAfter")
        @@ ("wBefore@w" :> "widthBefore") @@ ("trHeight@val" :> "rowHeight") @@ ("trHeight@hRule" :> "heightRule")
        

Cell(st, c) ==
  LET v == c.v  kv == c.kv IN
  CASE c.s = "vertical_merge" -> Put(st, "vMerge@val", v[1])
    [] c.s = "vertical_align" -> Put(st, "vAlign@val", v[1])
    [] c.s = "text_direction" -> Put(st, "textDirection@val", v[1])
    [] c.s = "grid_span" -> Put(st, "gridSpan@val", v[1])
    [] c.s = "width" -> Width(st, "tcW", v[1], v[2])
    [] c.s = "shading" -> Shade(st, "shd@", kv)
    [] c.s = "c_margins" -> Widths(Clear(st, "tcMar/"), "tcMar/", kv, v[1])
    [] c.s = "margin_top" -> Width(st, "tcMar/top", v[1], v[2])
    [] c.s = "margin_right" -> Width(st, "tcMar/right", v[1], v[2])
    [] c.s = "margin_bottom" -> Width(st, "tcMar/bottom", v[1], v[2])
    [] c.s = "margin_left" -> Width(st, "tcMar/left", v[1], v[2])
    [] OTHER -> Borders(st, c, "tcBorders/", TDefault, TSides, CSides)
CellCalls == Ones("vertical_merge", {"restart", "continue"}) \cup Ones("vertical_align", {"top", "center", "bottom"})
             \cup Ones("text_direction", Directions) \cup Ones("grid_span", Nums) \cup Pairs("width") \cup Shading
             \cup BorderCalls("c_", CSides, PlainBorderD, "clear_all_border")
CellPropCalls == CellCalls \cup MarginCalls("c_margins") \cup Pairs("margin_top") \cup Pairs("margin_right")
                 \cup Pairs("margin_bottom") \cup Pairs("margin_left")
CellJ == ("vMerge@val" :> "verticalMerge") @@ ("vAlign@val" :> "verticalAlign") @@ ("textDirection@val" :> "textDirection")
         @@ ("gridSpan@val" :> "gridSpan") @@ ("tcW@w" :> "width.width") @@ ("tcW@type" :> "width.widthType")
         @@ ("shd@val" :> "shading.shdType") @@ ("shd@color" :> "shading.color") @@ ("shd@fill" :> "shading.fill")
         @@ SidesJ("tcMar/", "margins.", TRUE) @@ BorderJ("tcBorders/", "borders.", CSides, "borderType")

-----------------------------------------------------------------------------
\* Sections
SectInit == PutAll(PutAll(PutAll(Empty, "pgSz@", <<<<"w", "11906">>, <<"h", "16838">>>>), "pgMar@",
                   <<<<"top", "1985">>, <<"right", "1701">>, <<"bottom", "1701">>, <<"left", "1701">>, <<"header", "851">>,
                     <<"footer", "992">>, <<"gutter", "0">>>>), "cols@", <<<<"space", "425">>, <<"num", "1">>>>)
Only(f, pre) == [p \in {q \in DOMAIN f : Prefixed(q, pre)} |-> f[p]]
Sect(st, c) ==
  LET v == c.v  kv == c.kv IN
  CASE c.s = "page_size" -> PutAll(Only(SectInit, "pgSz@") @@ Clear(st, "pgSz@"), "pgSz@", kv)
    [] c.s = "page_size_wh" -> Put(Put(st, "pgSz@w", v[1]), "pgSz@h", v[2])
    [] c.s = "page_margin" -> PutAll(Only(SectInit, "pgMar@") @@ Clear(st, "pgMar@"), "pgMar@", kv)
    [] c.s = "page_orient" -> Put(st, "pgSz@orient", v[1])
    [] c.s = "doc_grid" -> Set(st, "docGrid@", IF Has(kv, "type") THEN kv ELSE <<<<"type", "default">>>> \o kv)
    \* from left to right, then down, is how text runs anyway
    [] c.s = "s_text_direction" -> IF v[1] = "lrTb" THEN Without(st, {"textDirection@val"}) ELSE Put(st, "textDirection@val", v[1])
    [] c.s = "title_pg" -> Put(st, "titlePg", "on")
    [] c.s = "page_num_type" -> Set(st, "pgNumType@", kv)
    [] c.s = "columns" -> Put(st, "cols@num", v[1])
SectCalls == Named("page_size", <<>>, SizeD) \cup Named("page_margin", <<>>, MarginD)
             \cup Ones("page_orient", {"landscape", "portrait"}) \cup Named("doc_grid", <<>>, GridD)
             \cup Ones("s_text_direction", {"lrTb", "tbRl", "btLr", "lrTbV", "tbRlV", "tbLrV"}) \cup No("title_pg")
             \cup Named("page_num_type", <<>>, PageNumD)
DocumentCalls == SectCalls \cup Ones("columns", Small \cup {"3", "45"})
SectJ == [p \in {"pgMar@" \o k : k \in DOMAIN MarginD} |-> "pageMargin." \o SubSeq(p, 7, Len(p))]
         @@ ("pgSz@w" :> "pageSize.w") @@ ("pgSz@h" :> "pageSize.h") @@ ("pgSz@orient" :> "pageSize.orient")
         @@ ("cols@num" :> "columns") @@ ("cols@space" :> "space") @@ ("docGrid@type" :> "docGrid.gridType")
         @@ ("docGrid@linePitch" :> "docGrid.linePitch") @@ ("docGrid@charSpace" :> "docGrid.charSpace")
         @@ ("textDirection@val" :> "textDirection") @@ ("titlePg" :> "titlePg") @@ ("pgNumType@start" :> "pageNumType.start")
         @@ ("pgNumType@chapStyle" :> "pageNumType.chapStyle")

-----------------------------------------------------------------------------
\* Settings, defaults and properties of the document
SettingsInit == ("zoom@percent" :> "100") @@ ("defaultTabStop@val" :> "840")
DocVars(st) == Cardinality({i \in 0..20 : HasAny(st, "docVars/docVar[" \o ToString(i) \o "]")})
Settings(st, c) ==
  LET v == c.v IN
  CASE c.s = "doc_id" -> Put(st, "docId@val", "{" \o v[1] \o "}")
    [] c.s = "default_tab_stop" -> Put(st, "defaultTabStop@val", v[1])
    [] c.s = "add_doc_var" -> LET p == "docVars/docVar[" \o ToString(DocVars(st)) \o "]@" IN Put(Put(st, p \o "name", v[1]), p \o "val", v[2])
    [] c.s = "even_and_odd_headers" -> Put(st, "evenAndOddHeaders", "on")
    [] c.s = "adjust_line_height_in_table" -> Put(st, "compat/adjustLineHeightInTable", "on")
    [] c.s = "character_spacing_control" -> Put(st, "characterSpacingControl@val", v[1])
Vars == {<<"a", "b">>, <<"name two", "value 2">>, <<"a", "c">>, <<"e", "">>}
DocIds == {"50C3C7F2-0000-1111-2222-333344445555", "00000000-0000-0000-0000-000000000001"}
SharedSettings == Ones("doc_id", DocIds) \cup Ones("default_tab_stop", Zero) \cup {C("add_doc_var", x, <<>>) : x \in Vars}
SettingsCalls == SharedSettings \cup No("even_and_odd_headers") \cup No("adjust_line_height_in_table")
                 \cup Ones("character_spacing_control", {"doNotCompress", "compressPunctuation", "compressPunctuationAndJapaneseKana"})
SettingsJ == ("zoom@percent" :> "zoom") @@ ("defaultTabStop@val" :> "defaultTabStop")
             @@ ("evenAndOddHeaders" :> "evenAndOddHeaders") @@ ("compat/adjustLineHeightInTable" :> "adjustLineHeightInTable")
             @@ ("characterSpacingControl@val" :> "characterSpacingControl")
             @@ [p \in {"docVars/docVar[" \o ToString(i) \o "]@" \o k : i \in 0..9, k \in {"name", "val"}}
                   |-> "docVars" \o SubSeq(p, 15, 17) \o "." \o SubSeq(p, 19, Len(p))]

-----------------------------------------------------------------------------
\* A part of a host's state: the same settings below another place.
Sub(st, pre) == [q \in {SubSeq(p, Len(pre) + 1, Len(p)) : p \in {p \in DOMAIN st : Prefixed(p, pre)}} |-> st[pre \o q]]
Under(pre, f) == [p \in {pre \o q : q \in DOMAIN f} |-> f[SubSeq(p, Len(pre) + 1, Len(p))]]
Within(st, pre, f) == Under(pre, f) @@ Clear(st, pre)

\* The hosts that combine several kinds of settings.
IsRunCall(c) == c.s \in {"size", "color", "theme_color", "theme_shade", "theme_tint", "highlight", "bold", "disable_bold",
                         "italic", "disable_italic", "strike", "disable_strike", "dstrike", "disable_dstrike", "underline",
                         "vanish", "text_border", "fonts", "spacing", "character_spacing"}
IsTableCall(c) == c.s \in {"table_indent", "table_align", "t_style", "layout", "width", "margins", "t_set_border",
                           "t_set_borders", "t_clear_border", "clear_all_border"}
ParaHost(st, c) == IF IsRunCall(c) THEN Within(st, "rPr/", Run(Sub(st, "rPr/"), c)) ELSE Para(st, c)

StyleInit(kind) ==
  ("@type" :> kind) @@ ("name@val" :> "") @@ ("qFormat" :> "on")
  @@ (IF kind = "table" THEN Under("tblPr/", TableInit) ELSE Empty)
StyleHost(st, c) ==
  LET v == c.v IN
  CASE c.s = "name" -> Put(st, "name@val", v[1])
    [] c.s = "based_on" -> Put(st, "basedOn@val", v[1])
    [] c.s = "next" -> Put(st, "next@val", v[1])
    [] c.s = "link" -> Put(st, "link@val", v[1])
    [] c.s = "q_format" -> IF v[1] = "on" THEN Put(st, "qFormat", "on") ELSE Without(st, {"qFormat"})
    [] c.s = "ui_priority" -> Put(st, "uiPriority@val", v[1])
    [] c.s = "semi_hidden" -> Put(st, "semiHidden", "on")
    [] c.s = "unhide_when_used" -> Put(st, "unhideWhenUsed", "on")
    [] IsRunCall(c) -> Within(st, "rPr/", Run(Sub(st, "rPr/"), c))
    \* table settings are kept but take no part in styles of other kinds
    [] IsTableCall(c) -> IF st["@type"] = "table" THEN Within(st, "tblPr/", Table(Sub(st, "tblPr/"), c)) ELSE st
    [] OTHER -> Within(st, "pPr/", Para(Sub(st, "pPr/"), c))
StyleOwn == Ones("name", {"My style", "heading 1", "N"}) \cup Ones("based_on", {"Normal", "B1"}) \cup Ones("next", {"Normal", "N1"})
            \cup Ones("link", {"L1", "L2"}) \cup Ones("q_format", OnOff) \cup Ones("ui_priority", Str({0, 1, 9, 99}))
            \cup No("semi_hidden") \cup No("unhide_when_used")
StyleCalls == StyleOwn \cup RunMore \cup Theme \cup TextBorder \cup ParaBasic \cup Frames \cup Chars
              \cup Ones("text_alignment", {"auto", "baseline", "bottom", "center", "top"})
TableStyleCalls == StyleCalls \cup TableProps \cup MarginCalls("margins") \cup Ones("table_indent", Signed)
                   \cup Ones("table_align", {"left", "center", "right"})
StyleJ == ("@type" :> "styleType") @@ ("name@val" :> "name") @@ ("basedOn@val" :> "basedOn") @@ ("next@val" :> "next")
          @@ ("link@val" :> "link") @@ ("uiPriority@val" :> "uiPriority") @@ ("semiHidden" :> "semiHidden")
          @@ ("unhideWhenUsed" :> "unhideWhenUsed")
StyleRpr(st, c) == Within(st, "rPr/", Run(Sub(st, "rPr/"), c))
StylePpr(st, c) == Within(st, "pPr/", ParaHost(Sub(st, "pPr/"), c))
StyleTpr(st, c) == Within(st, "tblPr/", Table(Sub(st, "tblPr/"), c))
StyleCpr(st, c) == Within(st, "tcPr/", Cell(Sub(st, "tcPr/"), c))

\* kind: "level|start|format|text|jc"
LevelKinds == {<<"0", "1", "decimal", "%1.", "left">>, <<"8", "0", "bullet", "o", "right">>, <<"3", "1000", "lowerRoman", "(%4)", "center">>,
               <<"1", "5", "upperLetter", "", "left">>}
LevelInit(k) == ("@ilvl" :> k[1]) @@ ("start@val" :> k[2]) @@ ("numFmt@val" :> k[3]) @@ ("lvlText@val" :> k[4]) @@ ("lvlJc@val" :> k[5])
LevelHost(st, c) ==
  LET v == c.v IN
  CASE c.s = "paragraph_style" -> Put(st, "pStyle@val", v[1])
    \* a tab follows the number unless told otherwise
    [] c.s = "suffix" -> IF v[1] = "tab" THEN Without(st, {"suff@val"}) ELSE Put(st, "suff@val", v[1])
    [] c.s = "level_restart" -> Put(st, "lvlRestart@val", v[1])
    [] c.s = "is_lgl" -> Put(st, "isLgl", "on")
    [] c.s = "indent" -> Within(st, "pPr/", Para(Sub(st, "pPr/"), c))
    [] OTHER -> Within(st, "rPr/", Run(Sub(st, "rPr/"), c))
LevelCalls == RunMore \cup Spacing("spacing") \cup Indents \cup Ones("paragraph_style", {"P1", "P2"})
              \cup Ones("suffix", {"nothing", "space", "tab"}) \cup Ones("level_restart", Str(0..8)) \cup No("is_lgl")
              \cup No("disable_bold") \cup No("disable_italic") \cup No("strike") \cup No("disable_strike") \cup No("dstrike")
              \cup No("disable_dstrike")
LevelJ == ("@ilvl" :> "level") @@ ("start@val" :> "start") @@ ("numFmt@val" :> "format") @@ ("lvlText@val" :> "text")
          @@ ("lvlJc@val" :> "jc") @@ ("pStyle@val" :> "pstyle") @@ ("suff@val" :> "suffix") @@ ("lvlRestart@val" :> "levelRestart")
          @@ ("isLgl" :> "isLgl")

\* The document as a whole.
Rd == "docDefaults/rPrDefault/rPr/"
Pd == "docDefaults/pPrDefault/pPr/"
CoreInit == ("creator#text" :> "unknown") @@ ("lastModifiedBy#text" :> "unknown") @@ ("revision#text" :> "1")
            @@ ("created#text" :> "1970-01-01T00:00:00Z") @@ ("created@type" :> "dcterms:W3CDTF")
            @@ ("modified#text" :> "1970-01-01T00:00:00Z") @@ ("modified@type" :> "dcterms:W3CDTF")
DocxInit == SectInit @@ Under("settings/", SettingsInit) @@ Under("core/", CoreInit)
DocxHost(st, c) ==
  LET v == c.v  kv == c.kv IN
  CASE c.s = "default_size" -> Twice(st, Rd \o "sz@val", Rd \o "szCs@val", v[1])
    [] c.s = "default_spacing" -> Put(st, Rd \o "spacing@val", v[1])
    [] c.s = "default_fonts" -> Set(st, Rd \o "rFonts@", kv)
    [] c.s = "default_line_spacing" -> Set(st, Pd \o "spacing@", kv)
    [] c.s \in {"doc_id", "default_tab_stop", "add_doc_var"} -> Within(st, "settings/", Settings(Sub(st, "settings/"), c))
    [] c.s = "created_at" -> Put(st, "core/created#text", v[1])
    [] c.s = "updated_at" -> Put(st, "core/modified#text", v[1])
    [] c.s = "custom_property" -> LET p == "custom/property(" \o v[1] \o ")" IN Put(Put(st, p \o "@name", v[1]), p \o "/lpwstr#text", v[2])
    [] OTHER -> Sect(st, c)
Custom == {<<"k", "v">>, <<"other name", "value">>, <<"k", "again">>, <<"third", "3">>}
DocxCalls == Ones("default_size", Str({1, 21, 22, 144})) \cup Spacing("default_spacing") \cup Named("default_fonts", <<>>, FontD)
             \cup Named("default_line_spacing", <<>>, SpacingD) \cup SharedSettings
             \cup Ones("created_at", {"2020-01-02T03:04:05Z", "1999-12-31T23:59:59Z"}) \cup Ones("updated_at", {"2021-01-02T03:04:05Z", "2022-12-31T23:59:59Z"})
             \cup {C("custom_property", x, <<>>) : x \in Custom}
             \cup {C("page_size_wh", <<w, h>>, <<>>) : w, h \in Some(Nums)} \cup Named("page_margin", <<>>, MarginD)
             \cup Ones("page_orient", {"landscape", "portrait"}) \cup No("title_pg") \cup Named("page_num_type", <<>>, PageNumD)

-----------------------------------------------------------------------------
\* Hosts
StyleKinds == {"paragraph", "character", "numbering", "table"}
\* The elements a run can stand in.
Wrappers == {"", "ins", "del", "insdel", "mvf", "mvt", "link", "sdt"}
Kinds(h) ==
  CASE h \in {"run", "runpr"} -> Wrappers
    [] h = "table" -> {"", "without_borders"}
    [] h = "style" -> {"paragraph", "character", "numbering"}
    [] h = "tstyle" -> {"table"}
    [] h \in {"stylerpr", "styleppr"} -> {"paragraph"}
    [] h \in {"styletpr", "stylecpr"} -> {"table"}
    [] h = "level" -> {k[1] \o "|" \o k[2] \o "|" \o k[3] \o "|" \o k[4] \o "|" \o k[5] : k \in LevelKinds}
    [] OTHER -> {""}
CallsOf(h) ==
  CASE h = "run" -> RunCalls
    [] h \in {"runpr", "mark", "stylerpr"} -> RunPropCalls
    [] h = "para" -> ParaCalls \cup ParaMark
    [] h \in {"ppr", "pchange", "styleppr"} -> ParaPropCalls \cup Spacing("character_spacing")
    [] h \in {"table", "inner"} -> TableCalls
    [] h = "row" -> RowCalls
    [] h = "cell" -> CellCalls
    [] h \in {"cpr", "stylecpr"} -> CellPropCalls
    [] h = "styletpr" -> TablePropCalls
    [] h \in {"sect", "docsect"} -> SectCalls
    [] h = "document" -> DocumentCalls
    [] h = "style" -> StyleCalls
    [] h = "tstyle" -> TableStyleCalls
    [] h = "level" -> LevelCalls
    [] h = "settings" -> SettingsCalls
    [] h = "docx" -> DocxCalls
InitOf(h, k) ==
  CASE h = "table" -> IF k = "without_borders" THEN Bare ELSE TableInit
    [] h = "inner" -> TableInit
    [] h \in {"sect", "docsect", "document"} -> SectInit
    [] h \in {"style", "tstyle", "stylerpr", "styleppr", "styletpr", "stylecpr"} -> StyleInit(k)
    [] h = "level" -> LevelInit(CHOOSE x \in LevelKinds : k = x[1] \o "|" \o x[2] \o "|" \o x[3] \o "|" \o x[4] \o "|" \o x[5])
    [] h = "settings" -> SettingsInit
    [] h = "docx" -> DocxInit
    [] OTHER -> Empty
Do(h, st, c) ==
  CASE h \in {"run", "runpr", "mark"} -> Run(st, c)
    [] h \in {"para", "ppr", "pchange"} -> ParaHost(st, c)
    [] h \in {"table", "inner"} -> Table(st, c)
    [] h = "row" -> Row(st, c)
    [] h \in {"cell", "cpr"} -> Cell(st, c)
    [] h \in {"sect", "docsect", "document"} -> Sect(st, c)
    [] h \in {"style", "tstyle"} -> StyleHost(st, c)
    [] h = "stylerpr" -> StyleRpr(st, c)
    [] h = "styleppr" -> StylePpr(st, c)
    [] h = "styletpr" -> StyleTpr(st, c)
    [] h = "stylecpr" -> StyleCpr(st, c)
    [] h = "level" -> LevelHost(st, c)
    [] h = "settings" -> Settings(st, c)
    [] h = "docx" -> DocxHost(st, c)
\* What the reader keeps: some settings it does not know (existing tests fix what it reports of the documents that
\* have them), so that they come back as if they had not been set.
Off(st, p) == IF p \in DOMAIN st /\ st[p] = "off" THEN {p} ELSE {}
KeptRun(st) == Without(st, {"w@val"})
KeptPara(st) == Within(Without(st, Off(st, "bidi") \cup Off(st, "widowControl")), "rPr/", KeptRun(Sub(st, "rPr/")))
KeptTable(st) == IF "tblInd@w" \in DOMAIN st /\ st["tblInd@w"] = "0" THEN Clear(st, "tblInd@") ELSE st
KeptSect(st) == Without(st, {"pgSz@orient"})
KeptStyle(st) ==
  LET a == Within(Without(st, {"next@val", "uiPriority@val", "semiHidden", "unhideWhenUsed"}), "rPr/", KeptRun(Sub(st, "rPr/")))
      b == Within(a, "pPr/", KeptPara(Sub(a, "pPr/")))
  IN Put(Within(b, "tblPr/", KeptTable(Sub(b, "tblPr/"))), "qFormat", "on")
Kept(h, st) ==
  CASE h \in {"run", "runpr", "mark"} -> KeptRun(st)
    [] h \in {"para", "ppr", "pchange"} -> KeptPara(st)
    [] h \in {"table", "inner"} -> KeptTable(st)
    [] h \in {"sect", "docsect", "document"} -> KeptSect(st)
    [] h \in {"style", "tstyle", "stylerpr", "styleppr", "styletpr", "stylecpr"} -> KeptStyle(st)
    [] h = "level" -> Within(Within(st, "rPr/", KeptRun(Sub(st, "rPr/"))), "pPr/", KeptPara(Sub(st, "pPr/")))
    [] h = "docx" -> Within(Within(KeptSect(st), Rd, KeptRun(Sub(st, Rd))), "core/", CoreInit)
    [] OTHER -> st
\* What is there to see of a state.
Seen(h, st) == IF h = "row" THEN RowSeen(st) ELSE st
\* The blocks, which can stand in any story and container.
InParagraph == {"run", "runpr", "mark", "para", "ppr", "pchange", "runs"}
Blocks == InParagraph \cup {"table", "inner", "row", "cell", "cpr", "grid"}
Stories == {"", "cell", "sdt", "header", "first", "footer", "section", "comment"}
PlacesOf(h) == IF h \in InParagraph THEN Stories \cup {"footnote"} ELSE IF h \in Blocks THEN Stories ELSE {""}
Markup(h, st) == LET s == Seen(h, st) IN {p \o "=" \o s[p] : p \in DOMAIN s}

\* What the reader reports, in the names of its public JSON form.
Bool(x) == IF x = "on" THEN "true" ELSE "false"
Switches == {"b", "bCs", "i", "iCs", "caps", "strike", "dstrike", "vanish", "specVanish", "snapToGrid", "keepNext", "keepLines",
             "pageBreakBefore", "widowControl", "bidi", "cantSplit", "titlePg", "evenAndOddHeaders",
             "compat/adjustLineHeightInTable", "semiHidden", "unhideWhenUsed", "isLgl"}
Reported(J, st) == {J[p] \o "=" \o (IF p \in Switches THEN Bool(st[p]) ELSE st[p]) : p \in DOMAIN st \cap DOMAIN J}
Below(j, S) == {j \o f : f \in S}
RunRead(st) == Reported(RunJ, st)
BorderPositions(st, pre, j, all) == {j \o p \o ".position=" \o p : p \in {p \in all : (pre \o p \o "@val") \in DOMAIN st}}
ParaRead(st) ==
  Reported(ParaJ, st)
  \cup (IF "ind@firstLine" \in DOMAIN st THEN {"indent.specialIndent.type=firstLine", "indent.specialIndent.val=" \o st["ind@firstLine"]} ELSE {})
  \cup (IF "ind@hanging" \in DOMAIN st THEN {"indent.specialIndent.type=hanging", "indent.specialIndent.val=" \o st["ind@hanging"]} ELSE {})
  \cup (IF "adjustRightInd" \in DOMAIN st THEN {"adjustRightInd=" \o (IF st["adjustRightInd"] = "on" THEN "1" ELSE "0")} ELSE {})
  \cup BorderPositions(st, "pBdr/", "borders.", PSides)
  \cup Below("runProperty.", RunRead(Sub(st, "rPr/")))
TableRead(st) == Reported(TableJ, st) \cup BorderPositions(st, "tblBorders/", "borders.", TSides)
CellRead(st) == Reported(CellJ, st) \cup BorderPositions(st, "tcBorders/", "borders.", CSides)
Default(st, p, f) == IF p \in DOMAIN st THEN {} ELSE {f}
SectRead(st) == Reported(SectJ, st) \cup Default(st, "titlePg", "titlePg=false") \cup Default(st, "textDirection@val", "textDirection=lrTb")
SettingsRead(st) ==
  Reported(SettingsJ, st) \cup Default(st, "evenAndOddHeaders", "evenAndOddHeaders=false")
  \cup Default(st, "compat/adjustLineHeightInTable", "adjustLineHeightInTable=false")
  \cup (IF "docId@val" \in DOMAIN st THEN {"docId=" \o SubSeq(st["docId@val"], 2, Len(st["docId@val"]) - 1)} ELSE {})
StyleRead(st) ==
  Reported(StyleJ, st) \cup (IF "qFormat" \in DOMAIN st THEN {} ELSE {"qFormat=false"})
  \cup Below("runProperty.", RunRead(Sub(st, "rPr/"))) \cup Below("paragraphProperty.", ParaRead(Sub(st, "pPr/")))
  \cup (IF st["@type"] = "table" THEN Below("tableProperty.", TableRead(Sub(st, "tblPr/"))) \cup Below("tableCellProperty.", CellRead(Sub(st, "tcPr/"))) ELSE {})
LevelRead(st) ==
  Reported(LevelJ, st) \cup Default(st, "suff@val", "suffix=tab")
  \cup Below("runProperty.", RunRead(Sub(st, "rPr/"))) \cup Below("paragraphProperty.", ParaRead(Sub(st, "pPr/")))
Decimal(f) == f \o ".0"
RowRead(st) ==
  LET s == RowSeen(st)
      n == {"trHeight@val", "wAfter@w", "wBefore@w"}
  IN (IF "cantSplit" \in DOMAIN s THEN {"cantSplit=cantSplit"} ELSE {}) \cup Reported(RowJ, Without(s, n)) \cup {Decimal(f) : f \in Reported(RowJ, [p \in DOMAIN s \cap n |-> s[p]])}
CustomRead(st) == {"docProps.custom.properties." \o k \o "=" \o st["custom/property(" \o k \o ")/lpwstr#text"] :
                     k \in {k \in {x[1] : x \in Custom} : ("custom/property(" \o k \o ")@name") \in DOMAIN st}}
Report(h, st) ==
  CASE h \in {"run", "runpr", "mark"} -> RunRead(st)
    [] h \in {"para", "ppr", "pchange"} -> ParaRead(st)
    [] h \in {"table", "inner"} -> TableRead(st)
    [] h = "row" -> RowRead(st)
    [] h \in {"cell", "cpr"} -> CellRead(st)
    [] h \in {"sect", "docsect", "document"} -> SectRead(st)
    [] h \in {"style", "tstyle", "stylerpr", "styleppr", "styletpr", "stylecpr"} -> StyleRead(st)
    [] h = "level" -> LevelRead(st)
    [] h = "settings" -> SettingsRead(st)
    [] h = "docx" -> Below("section.", SectRead(st)) \cup Below("settings.", SettingsRead(Sub(st, "settings/")))
                     \cup Below("docDefaults.runPropertyDefault.runProperty.", RunRead(Sub(st, Rd)))
                     \cup Below("docDefaults.paragraphPropertyDefault.paragraphProperty.", ParaRead(Sub(st, Pd)))
                     \cup CustomRead(st)

=============================================================================
