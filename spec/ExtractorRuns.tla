----------------------------- MODULE ExtractorRuns -----------------------------
(***************************************************************************)
(* Histories of Extractor.  A search adds relations of one kind among few  *)
(* objects in every way; a walk throws dice for relations of all kinds and *)
(* for edits.                                                              *)
(***************************************************************************)
EXTENDS Extractor, Json

CONSTANTS Walk, Depth, Few     \* Few: how many relating and related objects a search picks from

RelKinds == << "agg", "cont", "void", "mat", "type" >>
Pick(s, x) == s[(x % Len(s)) + 1]
\* numbers before, among and after those of the cast
Ids == << 7, 9000, 3, 1450, 12, 9001, 50, 8, 60000, 2, 1299, 9100, 1, 77 >> \o
       TLCEval([i \in 1..60 |-> IF i % 3 = 0 THEN 13 + i ELSE 9200 + 997 * (i % 7) + i])
Used == { rels[i].id : i \in DOMAIN rels }
Fresh(d) == LET free == SelectSeq(Ids, LAMBDA i : i \notin Used) IN Pick(free, d)

R(id, k, a, b) == [id |-> id, k |-> k, a |-> a, b |-> b]
Add(r) == rels' = Append(rels, r) /\ UNCHANGED edits

(* --- walk ------------------------------------------------------------- *)
Throw == { TLCEval([i \in 1..16 |-> RandomElement(0..(997 + Len(rels) + Len(edits)))]) }
\* relations hit few objects often: the first of each list in two cases of three
At(d, i) == d[((i - 1) % 16) + 1] + ((i - 1) \div 16)
List(k, a, d) == [j \in 1..(IF k = "void" THEN 1 ELSE Pick(<< 0, 1, 2, 3, 0, 1, 2, 3, 6, 25 >>, d[4])) |->
                    Pick(Related(k, a), IF At(d, 4 + j) % 3 = 0 THEN At(d, 8 + j) ELSE (d[12] + (j \div 4)) % 3)]
WalkAdd == \E d \in Throw : LET k == Pick(RelKinds, d[1])  a == Pick(Relating[k], IF d[2] % 3 = 0 THEN d[3] ELSE d[13] % 2) IN Add(R(Fresh(d[14]), k, a, List(k, a, d)))
\* a relation still there is removed, or its members are replaced (those of some kinds are not open to change)
WalkEdit == \E d \in Throw : LET r == Pick(Now, d[1]) IN
  edits' = Append(edits, << r.id, IF d[15] % 2 = 0 \/ r.k \in {"void", "mat"} THEN << >> ELSE [j \in 1..(1 + (d[4] % 3)) |-> Pick(Related(r.k, r.a), d[4 + j])] >>) /\ UNCHANGED rels
WalkNext == IF Len(rels) < Depth THEN WalkAdd ELSE Len(edits) < 3 /\ WalkEdit

(* --- search ----------------------------------------------------------- *)
Some(s) == { Pick(s, i * (1 + (Len(s) \div 3))) : i \in 1..Few }
Lists(S, k) == IF k = "void" THEN { << x >> : x \in S } ELSE { << >> } \cup { << x >> : x \in S } \cup { << x, y >> : x \in S, y \in S }
SearchNext == /\ Len(rels) < Depth /\ edits = << >>
              /\ \E k \in (IF rels = << >> THEN Range(RelKinds) ELSE { rels[1].k }) : \E a \in Some(Relating[k]) : \E b \in Lists(Some(Related(k, a)), k) :
                   \E id \in (IF Len(rels) < 2 THEN {3, 9000} \ Used ELSE { Fresh(Len(rels)), Fresh(Len(rels) + 4) }) : Add(R(id, k, a, b))
SearchEdit == Len(rels) = Depth /\ edits = << >> /\ edits' = << << rels[1].id, << >> >> >> /\ UNCHANGED rels

Init == rels = << >> /\ edits = << >>
Next == IF Walk THEN WalkNext ELSE (SearchNext \/ SearchEdit)
Spec == Init /\ [][Next]_vars

Cast == [i \in DOMAIN Kinds |-> [k |-> Kinds[i][1], ids |-> OfKind(Kinds[i][1])]]
Whole2 == [sets |-> [layer |-> Members["MaterialLayerSet"], constituent |-> Members["MaterialConstituentSet"], usage |-> SetOf], cast |-> Cast]
DumpCast == rels = << >> => PrintT("@@" \o ToJson(Whole2))
Done == IF Walk THEN Len(edits) = 3 ELSE Len(rels) = Depth
Emit == Done => PrintT("@@" \o ToJson([rels |-> rels, edits |-> edits, given |-> Given]))
=============================================================================
