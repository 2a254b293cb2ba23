----------------------------- MODULE SinkTrace ------------------------------
(* Judges recorded writings: what the sink answered decides what the writer  *)
(* may report, and success means that the sink holds the whole package. A    *)
(* later writing of the same document is not affected.                       *)
EXTENDS SinkLaw, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECORDS)
VARIABLE i
Init == i \in 1..Len(Recs)
Next == UNCHANGED i

Problems(r) ==
  LET must == Ends("writing", [j \in DOMAIN r.answers |-> r.answers[j][2]]) IN
  (IF r.result # must THEN {<<"reported", r.result, "instead of", must>>} ELSE {})
  \cup (IF r.result = "done" /\ ~r.whole THEN {<<"success reported, but the package is not whole">>} ELSE {})
  \cup (IF ~r.again THEN {<<"the next writing of the document differs">>} ELSE {})
Judge == Problems(Recs[i]) # {} => PrintT(ToJson([bad |-> i, problems |-> Problems(Recs[i])]))
=============================================================================
