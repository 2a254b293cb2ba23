------------------------------- MODULE Draws -------------------------------
(* Identifiers drawn by several threads at once. Each thread builds elements; building one draws   *)
(* an identifier of the element's kind from a counter of the process, in one step (Step = "one")   *)
(* or by reading and writing it in two (Step = "two"), or from a counter of the thread's own       *)
(* (Step = "own"). When all are done one document is made of them: a table from identifiers to     *)
(* targets, one per kind. Every element must lead to its own target (Resolves), which holds for    *)
(* "one" alone; the other two are there to see TLC find the clash.                                 *)
(*                                                                                                 *)
(* The behaviours of "one" are all orders in which the threads can draw; each is replayed with     *)
(* real threads that take turns.                                                                   *)
EXTENDS Content, Json

CONSTANTS Threads, Drawn,
          Each,     \* elements per thread
          Step

VARIABLES counter,  \* kind -> next identifier (thread and kind -> for "own")
          held,     \* thread -> identifier read and not yet written back, or -1
          made,     \* thread -> elements, each [kind, id, target]
          order     \* who drew what, in order
vars == <<counter, held, made, order>>

Places == IF Step = "own" THEN Threads \X Drawn ELSE {0} \X Drawn
At(t, k) == IF Step = "own" THEN <<t, k>> ELSE <<0, k>>
Total == Each * Cardinality(Threads)

Init == /\ counter = [p \in Places |-> 1]
        /\ held = [t \in Threads |-> [kind |-> "", id |-> -1]]
        /\ made = [t \in Threads |-> <<>>]
        /\ order = <<>>

Add(t, k, id) ==
    /\ made' = [made EXCEPT ![t] = Append(@, [kind |-> k, id |-> id, target |-> <<t, Len(@) + 1>>])]
    /\ order' = Append(order, [thread |-> t, kind |-> k, target |-> "t" \o ToString(t) \o "n" \o ToString(Len(made[t]) + 1)])
Draw(t, k) ==
    /\ Step # "two" /\ Len(made[t]) < Each
    /\ Add(t, k, counter[At(t, k)])
    /\ counter' = [counter EXCEPT ![At(t, k)] = @ + 1]
    /\ UNCHANGED held
Load(t, k) ==
    /\ Step = "two" /\ held[t].id = -1 /\ Len(made[t]) < Each
    /\ held' = [held EXCEPT ![t] = [kind |-> k, id |-> counter[At(t, k)]]]
    /\ UNCHANGED <<counter, made, order>>
Store(t) ==
    /\ Step = "two" /\ held[t].id # -1
    /\ counter' = [counter EXCEPT ![At(t, held[t].kind)] = held[t].id + 1]
    /\ Add(t, held[t].kind, held[t].id)
    /\ held' = [held EXCEPT ![t] = [kind |-> "", id |-> -1]]
Next == \E t \in Threads : Store(t) \/ \E k \in Drawn : Draw(t, k) \/ Load(t, k)

Elements == UNION {{made[t][i] : i \in DOMAIN made[t]} : t \in Threads}
(* the first one with an identifier is what the document finds                                     *)
Find(k, id) == (CHOOSE e \in Elements : e.kind = k /\ e.id = id).target
Distinct == \A a, b \in Elements : a.kind = b.kind /\ a.id = b.id => a = b
Resolves == Len(order) = Total => \A e \in Elements : Find(e.kind, e.id) = e.target

(* the document: one paragraph per element, in the order they were drawn                           *)
Pictures == <<"png1", "png2", "png3", "png4", "png5", "png6", "png7", "png8", "png9">>
Par(i) ==
    LET x == order[i].target IN
    CASE order[i].kind = "link" -> N("p", "", <<N("link", "http://example.com/" \o x, <<R(<<T(x)>>)>>)>>)
      [] order[i].kind = "pic" -> N("p", "", <<R(<<T(x), L("img", Pictures[i])>>)>>)
      [] order[i].kind = "fn" -> N("p", "", <<R(<<T(x), N("fn", "", <<PT("note " \o x)>>)>>)>>)
      [] order[i].kind = "ins" -> N("p", "", <<N("ins", "Au|2024-01-02T00:00:00Z", <<R(<<T(x)>>)>>)>>)
Root == N("docx", "", [i \in DOMAIN order |-> Par(i)])
Emit == Len(order) = Total => PrintT(ToJson([what |-> "b", order |-> order, calls |-> Root, see |-> Observation(Root)]))
=============================================================================
