-------------------------------- MODULE Rich ---------------------------------
(* Documents with several of everything: each kind of thing a document can   *)
(* hold is present Count times, for every pair of kinds and for all of them. *)
(* Whatever orders, shares or counts things of one kind has several to work  *)
(* on, and things of another kind next to them.                              *)
EXTENDS Things, Json

CONSTANTS Counts,
          Without   \* kinds left out

VARIABLES kinds, n

All == Known \ Without

RECURSIVE Each(_)
Each(ks) == IF ks = {} THEN <<>>
            ELSE LET k == CHOOSE k \in ks : TRUE
                 IN Flat([i \in 1..n |-> One(k, i)]) \o Each(ks \ {k})

RECURSIVE Names(_)
Names(ks) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE k \in ks : TRUE IN <<k>> \o Names(ks \ {k})

Root == N("docx", "", Each(kinds))

Init == kinds \in {{a, b} : a, b \in All} \cup {All} /\ n \in Counts
Next == FALSE /\ UNCHANGED <<kinds, n>>

What == <<"rich" \o S(n)>> \o Names(kinds)
Emit == PrintT(ToJson([what |-> What, calls |-> Root, see |-> Observation(Root)]))
EmitJson == PrintT(ToJson([what |-> What, calls |-> Root, json |-> JsonForm(Root)]))
=============================================================================
