----------------------------- MODULE Numbering -----------------------------
(* List definitions. Abstract definitions, instances that each lead to one of *)
(* them and may override levels, and the paragraphs and styles that use the   *)
(* instances, added to a document in any order.                               *)
EXTENDS Format

CONSTANTS AbsIds, NumIds,   \* ids the user may choose
          Max,              \* number of steps
          Rich,             \* whether levels get formatting calls, overrides and links
          Sampled

\* The library supplies definition 1 and instance 1 where the user does not.
Given == "1"
VARIABLES defs,  \* abstract definitions: [id, levels, links]
          nums,  \* instances: [id, abs, ovr, all]
          uses,  \* [at, num, lvl]
          order, \* what was added when: <<"abs", i>>, <<"num", i>>, <<"use", i>>
          api,   \* definitions added one by one, or all at once
          steps
vars == <<defs, nums, uses, order, api, steps>>
Init == /\ defs = <<>> /\ nums = <<>> /\ uses = <<>> /\ order = <<>> /\ steps = 0
        /\ api \in {"add", "set"}
Ids(S) == {S[i].id : i \in DOMAIN S}
Level(k, cs) == [kind |-> k, calls |-> cs]
RECURSIVE After(_, _)
After(st, cs) == IF cs = <<>> THEN st ELSE After(LevelHost(st, Head(cs)), Tail(cs))
State(l) == After(LevelInit(l.kind), l.calls)
Join(k) == k[1] \o "|" \o k[2] \o "|" \o k[3] \o "|" \o k[4] \o "|" \o k[5]
Plain(n) == <<n, "1", "decimal", "%" \o n, "left">>
SomeLevel == IF Rich THEN LevelKinds ELSE {Plain("0"), Plain("1")}

Abstract(id, ls) == /\ id \notin Ids(defs)
                    /\ defs' = Append(defs, [id |-> id, levels |-> ls, links |-> <<>>])
                    /\ order' = Append(order, <<"abs", Len(defs) + 1>>)
                    /\ UNCHANGED <<nums, uses, api>>
Link(i, k, x) == /\ \A n \in DOMAIN defs[i].links : defs[i].links[n][1] # k
                 /\ defs' = [defs EXCEPT ![i].links = Append(@, <<k, x>>)]
                 /\ UNCHANGED <<nums, uses, order, api>>
AddLevel(i, k) == /\ defs' = [defs EXCEPT ![i].levels = Append(@, Level(k, <<>>))]
                  /\ UNCHANGED <<nums, uses, order, api>>
Format1(i, j, c) == /\ defs' = [defs EXCEPT ![i].levels[j].calls = Append(@, c)]
                    /\ UNCHANGED <<nums, uses, order, api>>
Instance(id, a) == /\ id \notin Ids(nums)
                   /\ nums' = Append(nums, [id |-> id, abs |-> a, ovr |-> <<>>, all |-> FALSE])
                   /\ order' = Append(order, <<"num", Len(nums) + 1>>)
                   /\ UNCHANGED <<defs, uses, api>>
\* all: the overrides given at once instead of one by one
Override(i, l, start, lev, all) ==
  /\ nums' = [nums EXCEPT ![i].ovr = Append(@, [lvl |-> l, start |-> start, level |-> lev]), ![i].all = all]
  /\ UNCHANGED <<defs, uses, order, api>>
Use(at, n, l) == /\ uses' = Append(uses, [at |-> at, num |-> n, lvl |-> l])
                 /\ order' = Append(order, <<"use", Len(uses) + 1>>)
                 /\ UNCHANGED <<defs, nums, api>>
Places == {"", "cell", "sdt", "section", "header", "footer", "style", "based"}
\* Levels of a new definition or of an override.
OneLevel(S) == {<<Level(k, <<>>)>> : k \in S}
Few == IF Rich THEN Str(0..8) ELSE {"0", "1"}
Links == {<<"styleLink", "S1">>, <<"numStyleLink", "S2">>, <<"multi", "multilevel">>, <<"multi", "hybridMultilevel">>}

Step(what) ==
  CASE what = "abs" -> \E id \in AbsIds : \E ls \in {<<>>} \cup OneLevel(SomeLevel) : Abstract(id, ls)
    [] what = "num" -> \E id \in NumIds, a \in AbsIds \cup {Given} : Instance(id, a)
    [] what = "use" -> \E at \in Places : \E n \in Ids(nums) \cup {Given} : \E l \in Few : Use(at, n, l)
    [] what = "level" -> \E i \in DOMAIN defs : \E k \in SomeLevel : AddLevel(i, k)
    [] what = "link" -> \E i \in DOMAIN defs : \E x \in Links : Link(i, x[1], x[2])
    [] what = "override" -> \E i \in DOMAIN nums : \E l \in Few, start \in {"", "0", "7"}, lev \in {<<>>} \cup OneLevel(SomeLevel), all \in BOOLEAN :
                              Override(i, l, start, lev, all)
    [] what = "format" -> \E i \in DOMAIN defs : \E j \in DOMAIN defs[i].levels : \E c \in LevelCalls : Format1(i, j, c)
    [] what = "overformat" -> \E i \in DOMAIN nums : \E j \in DOMAIN nums[i].ovr : \E c \in LevelCalls :
                                /\ nums[i].ovr[j].level # <<>>
                                /\ nums' = [nums EXCEPT ![i].ovr[j].level[1].calls = Append(@, c)]
                                /\ UNCHANGED <<defs, uses, order, api>>
R(S) == RandomElement(S)
Pick(S) == IF S = {} THEN {} ELSE {R(S)}
Draw(what) ==
  CASE what = "abs" -> \E id \in Pick(AbsIds \ Ids(defs)) : \E ls \in Pick({<<>>} \cup OneLevel(SomeLevel)) : Abstract(id, ls)
    [] what = "num" -> \E id \in Pick(NumIds \ Ids(nums)) : \E a \in Pick(Ids(defs) \cup {Given}) : Instance(id, a)
    [] what = "use" -> \E at \in Pick(Places) : \E n \in Pick(Ids(nums) \cup {Given}) : \E l \in Pick(Few) : Use(at, n, l)
    [] what = "level" -> \E i \in Pick(DOMAIN defs) : \E k \in Pick(SomeLevel) : AddLevel(i, k)
    [] what = "link" -> \E i \in Pick(DOMAIN defs) : \E x \in Pick(Links) : Link(i, x[1], x[2])
    [] what = "override" -> \E i \in Pick(DOMAIN nums) : \E l \in Pick(Few) : \E start \in Pick({"", "0", "7"}) :
                              \E lev \in Pick({<<>>} \cup OneLevel(SomeLevel)) : \E all \in Pick(BOOLEAN) : Override(i, l, start, lev, all)
    [] what = "format" -> \E i \in Pick(DOMAIN defs) : \E j \in Pick(DOMAIN defs[i].levels) : \E c \in Pick(LevelCalls) : Format1(i, j, c)
    [] what = "overformat" -> \E i \in Pick(DOMAIN nums) : \E j \in Pick({j \in DOMAIN nums[i].ovr : nums[i].ovr[j].level # <<>>}) :
                                \E c \in Pick(LevelCalls) :
                                  /\ nums' = [nums EXCEPT ![i].ovr[j].level[1].calls = Append(@, c)]
                                  /\ UNCHANGED <<defs, uses, order, api>>
Kinds1 == {"abs", "num", "use", "override"} \cup (IF Rich THEN {"level", "link", "format", "overformat"} ELSE {})
Next == /\ steps < Max
        /\ steps' = steps + 1
        /\ IF Sampled THEN \E what \in {R(Kinds1)} : Draw(what) \/ (~ENABLED Draw(what) /\ Draw("use"))
           ELSE \E what \in Kinds1 : Step(what)

\* Every instance leads to a definition.
Closed == \A i \in DOMAIN nums : nums[i].abs \in Ids(defs) \cup {Given}

N(k) == ToString(k - 1)
LevelFacts(at, l, read, back) ==
  LET st == IF back THEN Kept("level", State(l)) ELSE State(l)
  IN Below(at, IF read THEN Report("level", st) ELSE Markup("level", st))
DefFacts(d, read, back) ==
  LET at == "abs(" \o d.id \o ")" IN
  {at}
  \cup {at \o "/" \o (IF x[1] = "multi" THEN "multiLevelType" ELSE x[1]) \o "=" \o x[2] :
          x \in {d.links[n] : n \in {n \in DOMAIN d.links : ~(back /\ d.links[n][1] = "multi")}}}  \* the reader leaves it out
  \cup UNION {LevelFacts(at \o "/lvl[" \o N(i) \o "]/", d.levels[i], read, back) : i \in DOMAIN d.levels}
OvrFacts(at, o, read, back) ==
  {at \o "=" \o o.lvl} \cup (IF o.start = "" THEN {} ELSE {at \o "/startOverride=" \o o.start})
  \cup (IF o.level = <<>> THEN {} ELSE LevelFacts(at \o "/lvl/", o.level[1], read, back))
NumFacts(n, read, back) ==
  LET at == "num(" \o n.id \o ")" IN
  {at \o "/abs=" \o n.abs, at \o "/definitions=1"}
  \cup UNION {OvrFacts(at \o "/ovr[" \o N(i) \o "]", n.ovr[i], read, back) : i \in DOMAIN n.ovr}
UseFacts == {"use(u" \o N(i) \o ")=" \o uses[i].num \o "," \o uses[i].lvl : i \in DOMAIN uses}
GivenFacts == (IF Given \in Ids(defs) THEN {} ELSE {"abs(" \o Given \o ")"})
              \cup (IF Given \in Ids(nums) THEN {} ELSE {"num(" \o Given \o ")/abs=" \o Given, "num(" \o Given \o ")/definitions=1"})
Facts(read, back) == UNION {DefFacts(defs[i], read, back) : i \in DOMAIN defs}
                     \cup UNION {NumFacts(nums[i], read, back) : i \in DOMAIN nums} \cup UseFacts \cup GivenFacts
Out(l) == [kind |-> Join(l.kind), calls |-> l.calls]
OutAll(ls) == [i \in DOMAIN ls |-> Out(ls[i])]
Entry(e) ==
  CASE e[1] = "abs" -> LET d == defs[e[2]] IN [do |-> "abs", id |-> d.id, levels |-> OutAll(d.levels), links |-> d.links]
    [] e[1] = "num" -> LET n == nums[e[2]] IN
                       [do |-> "num", id |-> n.id, abs |-> n.abs, all |-> n.all,
                        ovr |-> [i \in DOMAIN n.ovr |-> [n.ovr[i] EXCEPT !.level = OutAll(@)]]]
    [] OTHER -> LET u == uses[e[2]] IN [do |-> "use", at |-> u.at, num |-> u.num, lvl |-> u.lvl]
Emit == (steps = Max /\ Closed /\ uses # <<>>) =>
          PrintT(ToJson([api |-> api, steps |-> [i \in DOMAIN order |-> Entry(order[i])], given |-> Given \notin Ids(defs),
                         markup |-> Facts(FALSE, FALSE), read |-> Facts(TRUE, TRUE), again |-> Facts(FALSE, TRUE)]))
\* On the specification: ids stand for one thing each.
OneEach == /\ Cardinality(Ids(defs)) = Len(defs) /\ Cardinality(Ids(nums)) = Len(nums)
=============================================================================
