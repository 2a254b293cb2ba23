------------------------------ MODULE PkgTrace -----------------------------
(* Judges recorded packages, one per step.                                   *)
EXTENDS Package, Json, IOUtils

CONSTANT Rule    \* which condition of Package to judge

Recs == ndJsonDeserialize(IOEnv.RECORDS)

Problems(g) == CASE Rule = "closed" -> Closed(g)
                 [] Rule = "changes" -> ChangeProblems(g)
                 [] Rule = "paras" -> ParaProblems(g)

VARIABLE i
Init == i \in 1..Len(Recs)
Next == UNCHANGED i

Judge == LET p == Problems(Recs[i])
         IN p # {} => PrintT(ToJson([bad |-> i, problems |-> p]))
=============================================================================
