-------------------------------- MODULE Edit ---------------------------------
(* Documents that are opened again: things of some kinds are added, the      *)
(* document is written, read and gone on with, and so on.                    *)
(* INTENT: what was read is still there when the document is written again,  *)
(* and what is added later does not disturb it.                              *)
EXTENDS Things, Json

CONSTANTS Max,      \* stretches between openings
          Count,    \* things of a kind
          Ways,     \* of opening the document again
          Without,
          Sampled

VARIABLES stretches   \* each: the kinds of things added, and how the document is opened after it

Kept == Known \ Without
Sets == {{a} : a \in Kept} \cup {Kept}
Stretches == [kinds : Sets, way : Ways]
Some == [kinds : {{}} \cup {{a, b} : a, b \in Kept} \cup {Kept}, way : Ways]

Init == stretches = <<>>
Add(x) == Len(stretches) < Max /\ stretches' = Append(stretches, x)
Next == IF Sampled THEN Add(RandomElement(Some))
        ELSE \E x \in Stretches : (x.kinds = Kept => \A i \in DOMAIN stretches : stretches[i].kinds = Kept) /\ Add(x)

RECURSIVE Names(_)
Names(ks) == IF ks = {} THEN "" ELSE LET k == CHOOSE k \in ks : TRUE IN k \o " " \o Names(ks \ {k})

\* Things of different stretches have different ids.
RECURSIVE Each(_, _)
Each(ks, from) == IF ks = {} THEN <<>>
                  ELSE LET k == CHOOSE k \in ks : TRUE
                       IN Flat([i \in 1..Count |-> One(k, from + i)]) \o Each(ks \ {k}, from)

Calls == Flat([j \in DOMAIN stretches |->
                 Each(stretches[j].kinds, 10 * (j - 1))
                 \o (IF stretches[j].way = "on" THEN <<>> ELSE <<L("reopen", stretches[j].way)>>)])
Root == N("docx", "", Calls)

\* Opening a document twice in a row, or at its end, changes nothing more.
Idle == LET r == Remaining(Root)
        IN Remaining([r EXCEPT !.c = Append(@, L("reopen", ""))]).c = KeepAll(r.c) \o <<L("reopen", "")>>

Emit == Len(stretches) = Max =>
          PrintT(ToJson([what |-> [j \in DOMAIN stretches |-> Names(stretches[j].kinds) \o stretches[j].way],
                         calls |-> Root, see |-> Observation(Root)]))
=============================================================================
