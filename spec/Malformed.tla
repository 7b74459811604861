------------------------------- MODULE Malformed -------------------------------
(***************************************************************************)
(* Instances of supported entities whose attribute layout is not the one   *)
(* the library supports: an attribute is of the wrong kind, missing at the *)
(* end, or additional.  They are unsupported and must be kept as they are. *)
(***************************************************************************)
EXTENDS Alts, Json

VARIABLES ent, how, at, wrong
vars == <<ent, how, at, wrong>>

Wrong == << Tok(".BOGUS."), Tok("\"0FF\""), Typed("IFCNOSUCHVALUE", "IFCNOSUCHVALUE", IntV("1")), Lst(<< Lst(<< Lst(<< Tok(".B.") >>) >>) >>) >>

Init == /\ ent \in DOMAIN Entities
        /\ how \in {"wrong", "missing", "extra", "inlist", "typo"}
        /\ at \in DOMAIN Entities[ent].f
        /\ wrong \in DOMAIN Wrong
        /\ how # "wrong" => wrong = 1
        /\ how \in {"missing", "extra", "typo"} => at = 1
        /\ how = "inlist" => Entities[ent].f[at].k \in {"strlist", "intlist", "reflist", "vec2", "vec3", "vec2list", "vec3list"}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Base == [j \in DOMAIN Entities[ent].f |-> Alts(Entities[ent].f[j], j, ent, 1)[1]]
Args == CASE how = "wrong"   -> [Base EXCEPT ![at] = Wrong[wrong]]
          [] how = "missing" -> SubSeq(Base, 1, Len(Base) - 1)
          [] how = "extra"   -> Append(Base, Null)
          [] how = "inlist"  -> [Base EXCEPT ![at] = Lst(Append(Base[at].v, Tok(".BOGUS.")))]
          [] how = "typo"    -> Base
Text == InstText(IF how = "typo" THEN Entities[ent].kw \o "X" ELSE Entities[ent].kw, Args)
Emit == PrintT("@@" \o ToJson([ty |-> Entities[ent].ty, how |-> how, text |-> Text]))
=============================================================================
