----------------------------- MODULE MarkupLaw -----------------------------
(* Every edit of Markup keeps small documents well formed and keeps what they mean.                *)
EXTENDS Markup

CONSTANTS Edits     \* edits in a row

L(c) == [c |-> c, ref |-> FALSE]
R(c) == [c |-> c, ref |-> TRUE]
W(x) == <<"w", x>>
X(x) == <<"x", x>>
At(n, v) == [n |-> n, v |-> v, q |-> "d"]
Tok(k, n, a, s) == [k |-> k, n |-> n, a |-> a, s |-> s]
Decl == Tok("i", <<"", "xml">>, <<>>, <<>>)
Open(n, a) == Tok("o", n, a, <<>>)
Close(n) == Tok("c", n, <<>>, <<>>)
Empty(n, a) == Tok("e", n, a, <<>>)
Text(s) == Tok("t", <<"", "">>, <<>>, s)
Com == Tok("m", <<"", "">>, <<>>, <<>>)
Pi == Tok("i", <<"", "p">>, <<>>, <<>>)
Data(s) == Tok("d", <<"", "">>, <<>>, s)

Docs == {
    <<Decl, Open(W("doc"), <<>>),
        Open(W("par"), <<At(W("id"), <<L("1")>>), At(W("val"), <<L("a"), L("amp")>>)>>),
          Open(W("txt"), <<>>), Text(<<L("a"), L("sp"), L("b")>>), Close(W("txt")),
          Empty(W("txt"), <<At(W("val"), <<L("b")>>)>>),
        Close(W("par")), Text(<<L("sp")>>), Empty(W("par"), <<>>), Close(W("doc"))>>,
    <<Open(W("doc"), <<At(W("val"), <<>>)>>), Open(W("par"), <<>>), Close(W("par")),
        Open(W("txt"), <<>>), Text(<<L("sp")>>), Close(W("txt")), Close(W("doc"))>> }

VARIABLES doc, str, n
vars == <<doc, str, n>>

(* what Markup says of the tokens of a real part, of these                                         *)
DepthAt(s, i) ==
    LET before == SubSeq(s, 1, i - 1)
        up == Cardinality({j \in DOMAIN before : before[j].k = "o"})
        down == Cardinality({j \in DOMAIN before : before[j].k = "c"})
    IN up - down - (IF s[i].k = "c" THEN 1 ELSE 0)
Parent(s, i) ==
    LET d == IF s[i].k = "c" THEN DepthAt(s, i) ELSE DepthAt(s, i) - 1
        J == {j \in 1..(i - 1) : s[j].k = "o" /\ DepthAt(s, j) = d}
    IN IF J = {} THEN <<"", "">> ELSE s[CHOOSE j \in J : \A k \in J : k <= j].n
View(s, i) ==
    LET t == s[i] IN
    [k |-> t.k, na |-> Len(t.a), nx |-> Len(t.a), depth |-> DepthAt(s, i), i |-> i - 1,
     simple |-> IF t.k \in {"o", "e", "c"} THEN Leaf(t.n) ELSE Leaf(Parent(s, i)),
     last |-> t.k = "o" /\ i < Len(s) /\ s[i + 1].k = "c"]

Piece(p, t) ==
    CASE p \in {"comment"} -> <<Com>>
      [] p = "comment2" -> <<Com, Com>>
      [] p = "pi" -> <<Pi>>
      [] p = "ws" -> <<Text(<<L("sp"), L("sp")>>)>>
      [] p = "x0" -> <<Empty(X("zzz"), <<>>)>>
      [] p = "x1" -> <<Open(X("zzz"), <<At(X("val"), <<L("1")>>)>>), Open(X("par"), <<>>), Text(<<L("z")>>), Close(X("par")), Close(X("zzz"))>>
      [] p = "x2" -> <<Open(X("txt"), <<>>), Text(<<L("z")>>), Close(X("txt")), Empty(X("doc"), <<>>)>>
      [] p = "w0" -> <<Empty(W("zzz"), <<At(W("yyy"), <<L("1")>>)>>)>>
      [] p = "w1" -> <<Open(W("zzz"), <<>>), Text(<<L("z")>>), Empty(W("yyy"), <<>>), Close(W("zzz"))>>
      [] p = "twin" -> <<Empty(X(t.n[2]), t.a)>>
      [] p = "twin2" -> <<Open(X(t.n[2]), <<At(W("val"), <<L("9")>>)>>), Text(<<L("z")>>), Close(X(t.n[2]))>>
      [] p = "" -> <<>>
Splice(s, i, m, x) == SubSeq(s, 1, i - 1) \o x \o SubSeq(s, i + m, Len(s))
Refd(v, all) == [j \in DOMAIN v |-> IF all \/ j = 1 THEN R(v[j].c) ELSE v[j]]
Foreign(t, arg) ==
    CASE arg = "x" -> At(X("zzz"), <<L("1")>>)  [] arg = "xval" -> At(X("val"), <<L("7")>>)
      [] arg = "xid" -> At(X("id"), <<L("7")>>) [] arg = "w" -> At(W("zzz"), <<L("1")>>)
      [] arg = "none" -> At(<<"", "zzz">>, <<L("1")>>) [] arg = "ns" -> At(<<"xmlns", "y">>, <<>>)
      [] OTHER -> At(X(t.a[CHOOSE k \in DOMAIN t.a : ToString(k - 1) = arg].n[2]), <<L("7")>>)
Half(s) == Len(s) \div 2
Halved(s, mid) == <<Text(SubSeq(s, 1, Half(s)))>> \o mid \o <<Text(SubSeq(s, Half(s) + 1, Len(s)))>>
TextForm(s, arg) ==
    CASE arg = "ref" -> <<Text(Refd(s, FALSE))>> [] arg = "refs" -> <<Text(Refd(s, TRUE))>>
      [] arg = "cdata" -> <<Data(s)>>
      [] arg = "half" -> <<Text(SubSeq(s, 1, Half(s))), Data(SubSeq(s, Half(s) + 1, Len(s)))>>
      [] arg = "half2" -> <<Data(SubSeq(s, 1, Half(s))), Text(SubSeq(s, Half(s) + 1, Len(s)))>>
      [] arg = "comment" -> Halved(s, <<Com>>) [] arg = "pi" -> Halved(s, <<Pi>>)
      [] arg = "comments" -> <<Com>> \o Halved(s, <<Com, Com>>) \o <<Com>>
      [] arg = "none" -> Halved(s, <<Data(<<>>)>>) \o <<Data(<<>>)>>

Apply(s, i, e) ==
    LET t == s[i]
        with(a) == Splice(s, i, 1, <<[t EXCEPT !.a = a]>>)
        m == Len(t.a)
    IN CASE e.op = "before" -> Splice(s, i, 0, Piece(e.arg, t))
         [] e.op = "expand" -> Splice(s, i, 1, <<Open(t.n, t.a)>> \o Piece(e.arg, t) \o <<Close(t.n)>>)
         [] e.op = "collapse" -> Splice(s, i, 2, <<Empty(t.n, t.a)>>)
         [] e.op = "afirst" -> with(<<Foreign(t, e.arg)>> \o t.a)
         [] e.op = "alast" -> with(Append(t.a, Foreign(t, e.arg)))
         [] e.op = "arev" -> with([j \in 1..m |-> t.a[m + 1 - j]])
         [] e.op = "arot" -> with(Tail(t.a) \o <<Head(t.a)>>)
         [] e.op = "aquote" -> with([j \in 1..m |-> [t.a[j] EXCEPT !.q = IF @ = "d" THEN "s" ELSE "d"]])
         [] e.op = "aref" -> with([j \in 1..m |-> [t.a[j] EXCEPT !.v = Refd(@, e.arg = "all")]])
         [] e.op = "text" -> Splice(s, i, 1, TextForm(t.s, e.arg))
         [] e.op = "decl" ->
              (CASE e.arg = "none" /\ t.k = "i" /\ t.n[2] = "xml" -> Tail(s)
                 [] e.arg = "after" -> s \o <<Com, Pi>>
                 [] OTHER -> s)
         [] OTHER -> s

(* two foreign attributes of one name would not be well formed                                     *)
Fresh(s, i, e) == e.op \in {"afirst", "alast"} => \A j \in DOMAIN s[i].a : s[i].a[j].n # Foreign(s[i], e.arg).n
(* an edit of an edited document is an edit of a document: only of what the reader knows           *)
Mine(s, i) == s[i].n[1] \in {"w", ""}

Init == doc \in Docs /\ str = doc /\ n = 0
Next ==
    /\ n < Edits /\ n' = n + 1 /\ doc' = doc
    /\ \E i \in DOMAIN str : \E e \in Same(View(str, i)) :
         Mine(str, i) /\ Fresh(str, i, e) /\ str' = Apply(str, i, e)

Kept == WellFormed(str) /\ Meaning(str) = Meaning(doc)
=============================================================================
