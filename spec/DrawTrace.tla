----------------------------- MODULE DrawTrace -----------------------------
(* Judges recorded histories of draws: each record holds the identifiers of one kind that threads  *)
(* drew at the same time. Distinct (Draws) must hold of them.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECORDS)
VARIABLE i
Init == i \in 1..Len(Recs)
Next == UNCHANGED i

Twice(s) == Len(s) - Cardinality({s[j] : j \in DOMAIN s})
Judge == Twice(Recs[i].ids) > 0 =>
           PrintT(ToJson([bad |-> i, problems |-> {[kind |-> Recs[i].kind, draws |-> Len(Recs[i].ids), clashes |-> Twice(Recs[i].ids)]}]))
=============================================================================
