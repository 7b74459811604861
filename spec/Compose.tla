-------------------------------- MODULE Compose --------------------------------
(***************************************************************************)
(* A state machine that composes every supported entity attribute by       *)
(* attribute.  Starting from a base assignment (every attribute given, or  *)
(* every optional attribute omitted) at most MaxDev attributes deviate, so *)
(* MaxDev = 2 covers every pair of attribute states of every entity.       *)
(* Values of different attributes of one instance are pairwise different,  *)
(* so that exchanged attributes are visible.                               *)
(***************************************************************************)
EXTENDS Alts, Json

CONSTANTS MaxDev,     \* attributes that deviate from the base
          NOpaque,    \* instances #1..#NOpaque are opaque and may be referenced
          Ents        \* indices of the entities to compose


-----------------------------------------------------------------------------
VARIABLES ent, base, args, dev
vars == <<ent, base, args, dev>>

Init == ent \in Ents /\ base \in {1, 2} /\ args = << >> /\ dev = 0

Attr(i) == Entities[ent].f[i]
BaseAlt(i) == IF base = 1 THEN 1 ELSE Omitted(Attr(i))

Give == LET i == Len(args) + 1 IN
        /\ i <= Len(Entities[ent].f)
        /\ \E j \in DOMAIN Alts(Attr(i), i, ent, NOpaque) :
             LET d == IF j = BaseAlt(i) THEN 0 ELSE 1 IN
             /\ dev + d <= MaxDev
             /\ dev' = dev + d
             /\ args' = Append(args, Alts(Attr(i), i, ent, NOpaque)[j])
        /\ UNCHANGED <<ent, base>>

Next == Give
Spec == Init /\ [][Next]_vars

Complete == Len(args) = Len(Entities[ent].f)

TypeOK == \A i \in DOMAIN args : Fits(args[i], Attr(i))

(* the keyword an instance may be written with when it is given to the loader *)
Keywords == << Entities[ent].kw >> \o Entities[ent].alias

Emit == Complete =>
          \A w \in DOMAIN Keywords :
            PrintT("@@" \o ToJson([ty |-> Entities[ent].ty, kw |-> Entities[ent].kw,
                                   text |-> InstText(Keywords[w], args), args |-> args,
                                   names |-> [i \in DOMAIN args |-> Attr(i).n]]))
=============================================================================
