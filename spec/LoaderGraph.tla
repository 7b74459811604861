------------------------------ MODULE LoaderGraph ------------------------------
(***************************************************************************)
(* Random small files (explored by simulation): some instances of random   *)
(* entities under random numbers in random order, with random attribute    *)
(* values and references among them (mostly admissible ones), then loaded. *)
(***************************************************************************)
EXTENDS Loader

CONSTANTS MaxInst,     \* instances per file
          BadIn        \* one of BadIn references ignores the declared types

IdPool == << "0", "1", "2", "3", "9", "10", "11", "12", "19", "99", "100", "101", "255", "256", "1000", "65536", "999999",
             "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807",
             "9223372036854775808", "18446744073709551614", "18446744073709551615" >>

VARIABLES plan,        \* chosen numbers and entities, not yet given
          phase
vars == <<file, nread, table, nver, verdict, plan, phase>>

Pick(set) == RandomElement(set)

(* entities other entities refer to, so that graphs are well connected *)
Popular == { e \in DOMAIN Entities : \E x \in DOMAIN Entities : \E j \in DOMAIN Entities[x].f : Entities[e].ty \in Entities[x].f[j].t }

Init == /\ plan = <<>> /\ phase = "choose" /\ file = <<>> /\ LInit

Choose == /\ phase = "choose"
          /\ Len(plan) < MaxInst
          /\ LET used == { plan[i][1] : i \in DOMAIN plan }
                 id == Pick({ IdPool[i] : i \in DOMAIN IdPool } \ used)
                 k == Pick(1..10)
                 e == IF k = 1 THEN 0 ELSE IF k < 6 THEN Pick(Popular) ELSE Pick(DOMAIN Entities)
             IN plan' = Append(plan, <<id, e>>)
          /\ UNCHANGED <<file, nread, table, nver, verdict, phase>>

Chosen == /\ phase = "choose" /\ Len(plan) = MaxInst /\ phase' = "give"
          /\ UNCHANGED <<file, nread, table, nver, verdict, plan>>

PlanType(p) == IF p[2] = 0 THEN "Dummy" ELSE Entities[p[2]].ty
Fitting(a) == { plan[i][1] : i \in { k \in DOMAIN plan : plan[k][2] = 0 \/ PlanType(plan[k]) \in a.t } }
AllIds == { plan[i][1] : i \in DOMAIN plan }

RandRef(a) == LET fit == Fitting(a) IN
  IF a.t # {} /\ fit # {} /\ Pick(1..BadIn) # 1 THEN Ref(Pick(fit)) ELSE Ref(Pick(AllIds))

(* a reference attribute that nothing fits is omitted if possible, or an empty list *)
RandVal(a, j, e) ==
  IF a.k = "ref" THEN
       IF a.o /\ ((Fitting(a) = {} /\ a.t # {}) \/ Pick(1..3) = 1) THEN Pick({Null, Derived}) ELSE RandRef(a)
  ELSE IF a.k = "reflist" THEN
       IF a.o /\ Pick(1..3) = 1 THEN Null
       ELSE IF Fitting(a) = {} /\ a.t # {} THEN Lst(<<>>)
       ELSE Lst([x \in 1..Pick(0..4) |-> RandRef(a)])
  ELSE IF a.k = "angle" THEN Alts(a, j, e, 1)[1]
  ELSE LET q == Alts(a, j, e, 1) IN q[Pick(DOMAIN q)]

Give == /\ phase = "give" /\ Len(file) < Len(plan)
        /\ LET p == plan[Len(file) + 1]
               e == p[2] IN
           file' = Append(file, IF e = 0 THEN Opaque(p[1], "IFCUNKNOWN('t;" \o p[1] \o "',#77)")
                                ELSE Stmt(p[1], e, [j \in DOMAIN Entities[e].f |-> RandVal(Entities[e].f[j], j, e)]))
        /\ UNCHANGED <<nread, table, nver, verdict, plan, phase>>

Given == /\ phase = "give" /\ Len(file) = Len(plan) /\ phase' = "load"
         /\ UNCHANGED <<file, nread, table, nver, verdict, plan>>

Load == phase = "load" /\ LNext /\ UNCHANGED <<plan, phase>>

Next == Choose \/ Chosen \/ Give \/ Given \/ Load
Spec == Init /\ [][Next]_vars

LoadInv == phase = "load" => TableOK /\ VerdictOK
Emit == Done => PrintT("@@" \o ToJson(Summary))
=============================================================================
