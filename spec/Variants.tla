----------------------------- MODULE Variants -----------------------------
(* Other packages that mean the same as a given one: edits of the markup of its parts (Markup),    *)
(* parts in other places with relationships that lead there, parts and relationships nobody knows. *)
(* The parts and tokens of the given packages are those of real ones (SHAPES).                     *)
EXTENDS Markup, Integers, Json, IOUtils

CONSTANTS Edits,    \* edits in a row
          First,    \* number of packages to vary
          Every,    \* at every token, not only at the first of its context
          Sampled   \* draw one choice per step

Shapes == JsonDeserialize(IOEnv.SHAPES)
Bases == 1..First

VARIABLES base, edits
vars == <<base, edits>>

Parts(b) == Shapes[b].parts
Edited(b) == {p \in DOMAIN Parts(b) : Parts(b)[p].xml /\ Parts(b)[p].toks # <<>>}
Places(b, p) == {i \in DOMAIN Parts(b)[p].toks : Every \/ Parts(b)[p].toks[i].rep}

(* A part other than a relationship part or the list of content types may be anywhere.             *)
Movable(b) == {p \in DOMAIN Parts(b) : ~Parts(b)[p].rels /\ Parts(b)[p].name # "[Content_Types].xml"}
Folders == {"", "other/", "word/deep/er/", "a b/"}
Forms == {"abs", "rel", "dot", "up", "in"}

Edit(b, p, i, e) == [part |-> Parts(b)[p].name, at |-> Parts(b)[p].toks[i].i, op |-> e.op, arg |-> e.arg]
Whole(p, o, a) == [part |-> p, at |-> -1, op |-> o, arg |-> a]

(* not two edits of one token, and nothing but markup after a part has moved                       *)
Free(p, i) == \A j \in DOMAIN edits : edits[j].op # "pmove" /\ (edits[j].part # p \/ edits[j].at # i)

Put(e) == edits' = Append(edits, e) /\ UNCHANGED base
Change ==
    IF Sampled
    THEN \E p \in {RandomElement(Edited(base))} : \E i \in {RandomElement(Places(base, p))} :
           LET t == Parts(base)[p].toks[i] IN
           /\ Same(t) # {} /\ Free(Parts(base)[p].name, t.i)
           /\ \E e \in {RandomElement(Same(t))} : Put(Edit(base, p, i, e))
    ELSE \E p \in Edited(base) : \E i \in Places(base, p) :
           \E e \in Same(Parts(base)[p].toks[i]) : Free(Parts(base)[p].name, Parts(base)[p].toks[i].i) /\ Put(Edit(base, p, i, e))
Move ==
    /\ \A j \in DOMAIN edits : edits[j].op # "pmove"
    /\ \E p \in IF Sampled THEN {RandomElement(Movable(base))} ELSE Movable(base) :
       \E d \in IF Sampled THEN {RandomElement(Folders)} ELSE Folders :
       \E f \in IF Sampled THEN {RandomElement(Forms)} ELSE Forms :
         Put(Whole(Parts(base)[p].name, "pmove", d \o "moved-" \o Parts(base)[p].file \o "|" \o f))
Add == \E a \in {"first", "last"} : (\A j \in DOMAIN edits : edits[j].op # "padd") /\ Put(Whole("", "padd", a))

Init == edits = <<>> /\ base \in IF Sampled THEN {RandomElement(Bases)} ELSE Bases
Next == Len(edits) < Edits /\ (Change \/ Move \/ Add)

Emit == edits # <<>> => PrintT(ToJson([base |-> base, edits |-> edits]))
=============================================================================
