---------------------------------- MODULE MapRuns ----------------------------------
(***************************************************************************)
(* Histories of operations on a data map, all of them up to a length, or   *)
(* random ones, from an empty model and from loaded ones.                  *)
(***************************************************************************)
EXTENDS DataMap, Json

CONSTANTS Depth, Walk, Ids

SmallIds == { 0, 1, 3 }
LargeIds == { 0, 1, 2, 4, 7, 8, 9, 30, 2000000000 }

Opaque(n) == [ty |-> "Dummy", text |-> "IFCUNKNOWN('" \o ToString(n) \o "')"]
Starts == << [x \in {} |-> 0],
             (3 :> Inst("Material", "l3") @@ 5 :> Opaque(5)),
             (1 :> Opaque(1) @@ 2 :> Inst("Organization", "l2") @@ 8 :> Inst("Material", "l8") @@ 9 :> Inst("MaterialLayerSet", "")) >>

\* a map collected from pairs: a later pair of a number replaces an earlier one
Pairs == << << 7, Inst("Material", "c1") >>, << 3, Inst("Organization", "c2") >>, << 7, Inst("PropertySingleValue", "c3") >>, << 0, Inst("Material", "c4") >>,
            << 3, Inst("Organization", "c5") >>, << 12, Inst("Material", "c6") >> >>
Collected == FoldLeft(LAMBDA f, p : Put(f, p[1], p[2]), [x \in {} |-> 0], Pairs)

VARIABLES start, hist
vars == <<m, res, start, hist>>

StartMap(n) == IF n = 0 THEN Collected ELSE Starts[n]
Init == start \in 0..Len(Starts) /\ m = StartMap(start) /\ res = None /\ hist = << >>

V == "s" \o ToString(Len(hist) + 1)         \* every operation writes a value of its own
OpI(id, ty) == [op |-> "insert", id |-> id, ty |-> ty, v |-> V]
OpN(ty) == [op |-> "new", ty |-> ty, v |-> V]
OpA(id, ty) == [op |-> "absent", id |-> id, ty |-> ty]
OpR(id) == [op |-> "remove", id |-> id]
OpM(id) == [op |-> "modify", id |-> id, v |-> V]
OpC(k) == [op |-> "construct", kind |-> k, v |-> V]
All == { OpI(id, ty) : id \in Ids, ty \in Range(Types) } \cup { OpN(ty) : ty \in Range(Types) }
       \cup { OpA(id, ty) : id \in Ids, ty \in Range(Defaults) } \cup { OpR(id) : id \in Ids \cup DOMAIN m }
       \cup { OpM(id) : id \in { x \in DOMAIN m : m[x].ty \in Range(Types) } } \cup { OpC(k) : k \in Range(Kinds) }

Next == /\ Len(hist) < Depth
        /\ \E o \in (IF Walk THEN { RandomElement(All) } ELSE All) :
             Apply(o) /\ hist' = Append(hist, [o |-> o, res |-> res', obs |-> Contents(m')])
        /\ UNCHANGED start
Spec == Init /\ [][Next]_vars

(* allocation: what is added without a number is above everything that was there *)
Allocates == [][ LET o == hist'[Len(hist')].o IN
                 o.op \in {"new", "construct"} =>
                   /\ \A id \in DOMAIN m : m'[id] = m[id]
                   /\ \A id \in DOMAIN m' \ DOMAIN m : \A x \in DOMAIN m : id > x ]_vars
Absent == [][ LET o == hist'[Len(hist')].o IN o.op = "absent" => \A id \in DOMAIN m : m'[id] = m[id] ]_vars

Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson([start |-> Contents(StartMap(start)), pairs |-> IF start = 0 THEN [i \in DOMAIN Pairs |-> << Pairs[i][1], Pairs[i][2].ty, Pairs[i][2].text >>] ELSE << >>, hist |-> hist]))
=============================================================================
