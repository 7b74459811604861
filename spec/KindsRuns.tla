---------------------------------- MODULE KindsRuns ----------------------------------
(***************************************************************************)
(* Histories of Kinds: a loaded model, then changes through the interface. *)
(* A search loads two instances of every two kinds and does every change;  *)
(* a walk throws dice.                                                     *)
(***************************************************************************)
EXTENDS Kinds, Json

CONSTANTS Walk, Depth
Numbers == << 5, 1, 900, 33, 2000000001, 12, 7, 901 >>
ShapeNo == 6                     \* every loaded model has a shape at this number

VARIABLES start, hist
vars == << m, start, hist >>
Pick(s, x) == s[(x % Len(s)) + 1]
N == Len(hist) + 100             \* serials of instances made by a change
Big(f) == \E i \in DOMAIN f : i > 2000000000

Base == 6 :> Obj("ProductDefinitionShape", Omitted, 6)
Loaded(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN Base ELSE Put(F[i - 1], s[i][1], Obj(s[i][2], s[i][3], i)) IN F[Len(s)]
Dice == { TLCEval([i \in 1..24 |-> RandomElement(0..(997 + Len(hist)))]) }
Reps == << ShapeNo, Omitted, 77 >>            \* given through the interface

Started(s) == start = s /\ m = Loaded(s) /\ hist = << >>
\* the model is loaded by the first step of a walk, so that the dice are thrown anew
Init == IF Walk THEN Started(<< >>)
        ELSE \E j \in DOMAIN All, r \in {ShapeNo, Omitted, Derived} :
               \E k \in {All[j]}, l \in { All[(j % Len(All)) + 1], All[((j + 8) % Len(All)) + 1], All[j] } :
                 Started(<< << 5, k, r >>, << 33, l, ShapeNo >> >>)

Do(o) == /\ CASE o.op = "insert" -> Insert(o.id, o.k, o.rep, N)
              [] o.op = "new"    -> InsertNew(o.k, o.rep, N)
              [] o.op = "remove" -> Delete(o.id)
              [] o.op = "reshape" -> Reshape(o.id, o.rep)
              [] o.op = "redirect" -> Redirect(o.id, o.rep)
         /\ hist' = Append(hist, [o |-> o, about |-> Answers', of |-> [i \in DOMAIN All |-> OfKind(All[i])']])
         /\ UNCHANGED start
Op(op, id, k, rep) == [op |-> op, id |-> id, k |-> k, rep |-> rep, serial |-> N]

WalkLoad == \E d \in Dice : LET s == [i \in 1..(2 + (d[1] % 6)) |-> << Numbers[i], Pick(All, d[i + 2]), Pick(<< ShapeNo, Omitted, Derived >>, d[i + 12]) >>] IN
              start' = s /\ m' = Loaded(s) /\ hist' = << [o |-> Op("load", 0, "", 0), about |-> Answers', of |-> [i \in DOMAIN All |-> OfKind(All[i])']] >>
WalkStep == \E d \in Dice :
  LET id == Pick(Numbers, d[1]) k == Pick(All, d[2]) rep == Pick(Reps, d[3]) c == d[4] % 7 IN
  IF c < 2 /\ k /= "Dummy" THEN Do(Op("insert", id, k, rep))
  ELSE IF c < 4 /\ ~Big(m) /\ k /= "Dummy" THEN Do(Op("new", 0, k, rep))
  ELSE IF c < 5 THEN Do(Op("remove", id, "", 0))
  ELSE LET ps == Sorted({ i \in DOMAIN m : m[i].k \in Products }) IN
       IF ps = << >> THEN Do(Op("remove", id, "", 0)) ELSE IF c = 5 THEN Do(Op("reshape", Pick(ps, d[1]), "", rep)) ELSE Do(Op("redirect", Pick(ps, d[1]), "", 77 + (d[3] % 3)))

Search == \/ \E k \in Range(All) \ {"Dummy"}, rep \in {ShapeNo, Omitted} : Do(Op("insert", 5, k, rep))
          \/ \E k \in {"Wall", "Storey", "Material"} : Do(Op("new", 0, k, ShapeNo))
          \/ Do(Op("remove", 5, "", 0))
          \/ \E id \in { i \in DOMAIN m : m[i].k \in Products }, rep \in Range(Reps) : Do(Op("reshape", id, "", rep))
          \/ \E id \in { i \in DOMAIN m : m[i].k \in Products } : Do(Op("redirect", id, "", 77))

Next == /\ Len(hist) < Depth
        /\ IF Walk THEN (IF hist = << >> THEN WalkLoad ELSE WalkStep) ELSE Search
Spec == Init /\ [][Next]_vars
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson([start |-> start, hist |-> hist]))
Listed == << "kinds", All >>
DumpKinds == (hist = << >>) => PrintT("@@" \o ToJson(Listed))
=============================================================================
