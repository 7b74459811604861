---- MODULE Dump ----
(* Prints the schema table once; tools/gen.py turns it into the typed projections of the harness. *)
EXTENDS IfcSchema, Json, TLC
VARIABLE done
Rec(i) == [ty |-> Entities[i].ty, kw |-> Entities[i].kw, alias |-> Entities[i].alias,
           f |-> [j \in DOMAIN Entities[i].f |-> [Entities[i].f[j] EXCEPT !.t = {x \in @ : TRUE}]]]
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ \A i \in DOMAIN Entities : PrintT("@@" \o ToJson(Rec(i)))
====
