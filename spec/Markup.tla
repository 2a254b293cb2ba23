------------------------------ MODULE Markup ------------------------------
(* XML markup as a stream of tokens, what it means to a reader that knows one vocabulary, and the  *)
(* edits of the stream that do not change what it means. The first half is used on real parts: a   *)
(* token is known by its kind, its place and the number of its attributes, and an edit is possible *)
(* at a token or not. The second half checks on small documents that every possible edit keeps the *)
(* meaning (module MarkupLaw).                                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* kinds of tokens: o(pen) e(mpty) c(lose) t(ext) d(ata section) m(comment) i(nstruction)          *)
IsTag(t) == t.k \in {"o", "e"}

(* pieces that mean nothing: ignorable ones, white space and elements of unknown vocabularies      *)
Silent == {"comment", "comment2", "pi"}
Elements == {"x0", "x1", "x2", "w0", "w1", "twin", "twin2"}
Pieces == Silent \cup {"ws"} \cup Elements

(* A piece before token t: nothing before the declaration, text stays as it is, there is one root. *)
InText(t) == t.simple /\ t.k \in {"t", "d", "c", "m", "i"}
CanPut(t, piece) ==
    /\ t.i > 0
    /\ piece \in Silent \/ ~InText(t)
    /\ piece \in Elements => t.k = "c" \/ t.depth > 0
    /\ piece \in {"twin", "twin2"} => t.k \in {"o", "e", "c"} /\ (t.k = "c" => t.depth > 0)
CanFill(t, piece) == t.k = "e" /\ (piece \in {""} \cup Silent \/ (~t.simple /\ piece \notin {"twin", "twin2"}))
TextForms == {"ref", "refs", "cdata", "half", "half2", "comment", "comments", "pi", "none"}
AttrNames == {"x", "xval", "xid", "w", "none", "ns"}

(* names under an unknown prefix with the local names of the attributes that are there             *)
Twins(t) == {ToString(k) : k \in 0..(t.nx - 1)}

Same(t) ==
    {[op |-> "before", arg |-> p] : p \in {p \in Pieces : CanPut(t, p)}} \cup
    {[op |-> "expand", arg |-> p] : p \in {p \in Pieces \cup {""} : CanFill(t, p)}} \cup
    (IF t.k = "o" /\ t.last THEN {[op |-> "collapse", arg |-> ""]} ELSE {}) \cup
    (IF IsTag(t) THEN [op : {"afirst", "alast"}, arg : AttrNames \cup Twins(t)] ELSE {}) \cup
    (IF IsTag(t) /\ t.na >= 2 THEN [op : {"arev", "arot"}, arg : {""}] ELSE {}) \cup
    (IF IsTag(t) /\ t.na >= 1 THEN [op : {"aquote", "aspace"}, arg : {""}] ELSE {}) \cup
    (IF IsTag(t) /\ t.nx >= 1 THEN [op : {"aref"}, arg : {"", "all"}] ELSE {}) \cup
    (IF t.k = "c" THEN {[op |-> "cspace", arg |-> ""]} ELSE {}) \cup
    (IF t.k = "t" /\ t.simple THEN [op : {"text"}, arg : TextForms] ELSE {}) \cup
    (IF t.i = 0 THEN [op : {"decl"}, arg : {"none", "quotes", "bom", "after"}] ELSE {})

-----------------------------------------------------------------------------
(* Meaning. Here tokens carry their names, attributes and characters:                              *)
(*   [k, n, a (sequence of [n, v, q]), s (sequence of characters or references)]                   *)
(* Names are pairs of vocabulary and local name; vocabulary "w" is known, and so are the names in  *)
(* KnownNames only.                                                                                *)
KnownNames == {"doc", "par", "txt", "val", "id"}
Known(n) == n[1] = "w" /\ n[2] \in KnownNames
Leaf(n) == n = <<"w", "txt">>          \* content is text

Char(x) == x.c                          \* a character or a reference to it
Chars(s) == [i \in DOMAIN s |-> Char(s[i])]
Attrs(a) == {<<a[i].n, Chars(a[i].v)>> : i \in {i \in DOMAIN a : Known(a[i].n)}}

(* Reading: drop what is silent, open and close empty tags, join texts, drop unknown elements with *)
(* everything in them, unknown attributes, and white space between elements.                       *)
Events(str) ==
    LET F[i \in 0..Len(str)] ==
        IF i = 0 THEN <<>>
        ELSE LET t == str[i] IN
             F[i - 1] \o
             CASE t.k \in {"m", "i"} -> <<>>
               [] t.k = "e" -> <<[k |-> "o", n |-> t.n, a |-> Attrs(t.a), s |-> <<>>],
                                 [k |-> "c", n |-> t.n, a |-> {}, s |-> <<>>]>>
               [] t.k = "o" -> <<[k |-> "o", n |-> t.n, a |-> Attrs(t.a), s |-> <<>>]>>
               [] t.k = "c" -> <<[k |-> "c", n |-> t.n, a |-> {}, s |-> <<>>]>>
               [] t.k \in {"t", "d"} -> <<[k |-> "t", n |-> <<"", "">>, a |-> {}, s |-> Chars(t.s)]>>
    IN F[Len(str)]

(* well formed: tags match, one root, text only inside, end names alike                            *)
Stack(ev) ==
    LET F[i \in 0..Len(ev)] ==
        IF i = 0 THEN [ok |-> TRUE, open |-> <<>>, roots |-> 0]
        ELSE LET p == F[i - 1] e == ev[i] IN
             CASE ~p.ok -> p
               [] e.k = "o" -> [ok |-> Len(p.open) > 0 \/ p.roots = 0, open |-> Append(p.open, e.n),
                                roots |-> IF p.open = <<>> THEN p.roots + 1 ELSE p.roots]
               [] e.k = "c" -> [ok |-> p.open # <<>> /\ p.open[Len(p.open)] = e.n, roots |-> p.roots,
                                open |-> IF p.open = <<>> THEN <<>> ELSE SubSeq(p.open, 1, Len(p.open) - 1)]
               [] e.k = "t" -> [p EXCEPT !.ok = p.open # <<>> \/ \A j \in DOMAIN e.s : e.s[j] = "sp"]
    IN F[Len(ev)]
WellFormed(str) ==
    LET s == Stack(Events(str)) IN
    /\ s.ok /\ s.open = <<>> /\ s.roots = 1
    /\ \A i \in DOMAIN str : str[i].k = "i" /\ str[i].n[2] = "xml" => i = 1
    /\ \A i \in DOMAIN str : \A j, k \in DOMAIN str[i].a : str[i].a[j].n = str[i].a[k].n => j = k

(* the tree a reader sees: [n, a, kids], kids are trees or texts                                   *)
Meaning(str) ==
    LET ev == Events(str)
        \* state: output, names of open known elements, depth inside unknown ones
        F[i \in 0..Len(ev)] ==
            IF i = 0 THEN [out |-> <<>>, open |-> <<>>, un |-> 0]
            ELSE LET p == F[i - 1] e == ev[i] IN
                 CASE e.k = "o" /\ (p.un > 0 \/ ~Known(e.n)) -> [p EXCEPT !.un = @ + 1]
                   [] e.k = "c" /\ p.un > 0 -> [p EXCEPT !.un = @ - 1]
                   [] e.k = "o" -> [p EXCEPT !.out = Append(@, [k |-> "o", n |-> e.n, a |-> e.a, s |-> <<>>]),
                                             !.open = Append(@, e.n)]
                   [] e.k = "c" -> [p EXCEPT !.out = Append(@, [k |-> "c", n |-> e.n, a |-> {}, s |-> <<>>]),
                                             !.open = SubSeq(@, 1, Len(@) - 1)]
                   [] e.k = "t" /\ (p.un > 0 \/ p.open = <<>>) -> p
                   [] e.k = "t" ->
                        IF ~Leaf(p.open[Len(p.open)]) \/ e.s = <<>> THEN p
                        ELSE IF p.out[Len(p.out)].k = "t"
                        THEN [p EXCEPT !.out[Len(p.out)].s = @ \o e.s]
                        ELSE [p EXCEPT !.out = Append(@, [k |-> "t", n |-> <<"", "">>, a |-> {}, s |-> e.s])]
    IN F[Len(ev)].out
=============================================================================
