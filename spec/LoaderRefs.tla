------------------------------- MODULE LoaderRefs -------------------------------
(***************************************************************************)
(* Every reference attribute of every entity (for lists: first, middle and *)
(* last position of three, two of forty) x every type of the target instance, an opaque target, a *)
(* missing target and the instance itself; all other references point to   *)
(* an opaque instance.                                                     *)
(***************************************************************************)
EXTENDS Loader

CONSTANT Part, Parts      \* this run treats the entities of one of several parts

Subject == "50"
Target  == "60"

BaseArgs(e, given) ==
  [j \in DOMAIN Entities[e].f |->
     LET a == Entities[e].f[j] IN
     Alts(a, j, e, 1)[IF given THEN 1 ELSE Omitted(a)]]

One == Ref("1")
Put(a, pos, r) == IF a.k = "reflist" THEN Lst([k \in 1..(IF pos > 3 THEN 40 ELSE 3) |-> IF k = pos THEN r ELSE One]) ELSE r

Subjects == { e \in DOMAIN Entities : e % Parts = Part }
Positions(a) == IF a.k = "reflist" THEN 1..3 \cup {20, 40} ELSE {1}

(* target: 0 = opaque, -1 = missing, -2 = the subject itself *)
Targets == (DOMAIN Entities) \cup {0, -1, -2}

MkFile(e, j, pos, tg) ==
  LET a == Entities[e].f[j]
      r == Ref(IF tg = -1 THEN "99" ELSE IF tg = -2 THEN Subject ELSE Target)
      s == Stmt(Subject, e, [BaseArgs(e, TRUE) EXCEPT ![j] = Put(a, pos, r)])
      o == Opaque("1", "IFCOPAQUE()")
      t == IF tg = 0 THEN Opaque(Target, "IFCOTHER('x')")
           ELSE Stmt(Target, IF tg > 0 THEN tg ELSE e, BaseArgs(IF tg > 0 THEN tg ELSE e, FALSE))
  IN IF (e + j + pos) % 2 = 0 THEN <<o, s, t>> ELSE <<t, s, o>>

Init == /\ \E e \in Subjects : \E j \in DOMAIN Entities[e].f :
             LET a == Entities[e].f[j] IN
             /\ IsRef(a)
             /\ \E pos \in Positions(a) : \E tg \in Targets :
                  \* an unrestricted attribute is not specified for missing targets
                  /\ ~(tg = -1 /\ a.t = {})
                  /\ file = MkFile(e, j, pos, tg)
        /\ LInit
Next == LNext
Spec == Init /\ [][Next]_lvars

Emit == Done => PrintT("@@" \o ToJson([v |-> verdict, f |-> [i \in DOMAIN file |-> << file[i].id, StmtText(file[i]) >>]]))
=============================================================================
