------------------------------------- MODULE Bulk -------------------------------------
(***************************************************************************)
(* Files of many instances: statement after statement is given and held.   *)
(* The numbers walk through a range in steps that leave no order in the    *)
(* file; what is held at the end is every instance under its number.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Sizes, Prime          \* Prime is above all sizes

QuickSizes == { 10, 100, 1000, 2500 }
DeepSizes  == { 33, 129, 257, 1025, 4097, 20000 }
Strides    == { 1, 7919, 10007 }

VARIABLES size, stride, n
vars == << size, stride, n >>
N(i) == ToString(i)
Number(i) == 1 + ((i * stride) % Prime)
\* points are what lines refer to; they stand at every fourth place
Text(i) == CASE i % 4 = 0 -> "IFCCARTESIANPOINT((" \o N(i) \o ".,0.5,-" \o N(i + 1) \o ".))"
             [] i % 4 = 1 -> "IFCPOLYLINE((#" \o N(Number(i - 1)) \o ",#" \o N(Number(0)) \o ",#" \o N(Number(i - 1)) \o "))"
             [] i % 4 = 2 -> "IFCMATERIAL('m" \o N(i) \o "',$,$)"
             [] i % 4 = 3 -> "IFCUNKNOWN('u" \o N(i) \o "',(#" \o N(i) \o "))"

Init == size \in Sizes /\ stride \in Strides /\ n = 0
Give == n < size /\ n' = (IF n + 1000 > size THEN size ELSE n + 1000) /\ UNCHANGED << size, stride >>
Next == Give
Spec == Init /\ [][Next]_vars

Distinct == n = size => Cardinality({ Number(i) : i \in 0..(size - 1) }) = size
Emit == n = size => PrintT("@@" \o ToJson([size |-> size, stride |-> stride, file |-> [i \in 1..size |-> << Number(i - 1), Text(i - 1) >>]]))
=============================================================================
