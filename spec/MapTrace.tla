---------------------------------- MODULE MapTrace ----------------------------------
(***************************************************************************)
(* Checks that a history recorded from the real data map is one of         *)
(* DataMap: every event must be the operation it says, with that result    *)
(* and that map afterwards.                                                *)
(***************************************************************************)
EXTENDS DataMap, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

AsMap(q) == [x \in { q[i][1] : i \in DOMAIN q } |-> LET i == CHOOSE i \in DOMAIN q : q[i][1] = x IN [ty |-> q[i][2], text |-> q[i][3]]]

VARIABLE k
Init == k = 1 /\ m = [x \in {} |-> 0] /\ res = None
Step == /\ k <= Len(Trace)
        /\ LET e == Trace[k] IN
             IF e.o.op = "reset" THEN m' = AsMap(e.obs) /\ res' = None
             ELSE /\ Apply(e.o)
                  /\ res' = e.res
                  /\ m' = AsMap(e.obs)
        /\ k' = k + 1
Done == k > Len(Trace) /\ UNCHANGED <<m, res, k>>
Next == Step \/ Done
Spec == Init /\ [][Next]_<<m, res, k>>
=============================================================================
