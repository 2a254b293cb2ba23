------------------------------- MODULE Nodes -------------------------------
(* Abstract documents. A document is a tree of nodes; a node stands for one  *)
(* public call of the library: k = which call, v = the argument that remains *)
(* visible in the document, o = arguments that only steer how it is stored   *)
(* (chosen ids, ways of calling), c = the nodes handed to that call.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Nd(k, v, o, c) == [k |-> k, v |-> v, o |-> o, c |-> c]
N(k, v, c) == Nd(k, v, "", c)
L(k, v) == Nd(k, v, "", <<>>)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]

Filter(s, keep(_)) == SelectSeq(s, keep)

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Range(s) == {s[i] : i \in DOMAIN s}

RECURSIVE Size(_)
Size(n) == LET S[i \in 0..Len(n.c)] == IF i = 0 THEN 1 ELSE S[i-1] + Size(n.c[i]) IN S[Len(n.c)]

RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)

\* Short constructors ------------------------------------------------------
T(x) == L("t", x)
R(c) == N("r", "", c)
RT(x) == R(<<T(x)>>)
P(c) == N("p", "", c)
PT(x) == P(<<RT(x)>>)
Tbl(rows) == N("tbl", "", rows)
Tr(cells) == N("tr", "", cells)
Tc(c) == N("tc", "", c)
Tbl1(c) == Tbl(<<Tr(<<Tc(c)>>)>>)
=============================================================================
