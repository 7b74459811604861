--------------------------------- MODULE Views ---------------------------------
(***************************************************************************)
(* The resolved views of geometry.  A model is a sequence of instances     *)
(*   k  kind                                                               *)
(*   r  references, by position in the sequence: 0 is $, -1 is *           *)
(*   n  numbers, in sixteenths                                             *)
(*   o  optional numbers: << >> is $, a pair is *                         *)
(*   s  texts                                                              *)
(*   i  places of references that are replaced by the part itself, inline  *)
(* and a history of changes of loaded instances, << position, instance >>. *)
(* The view of an instance is a tree of the values its references reach.   *)
(* An optional part is a sequence of at most one element.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES insts, edits
vars == << insts, edits >>

Inst(k, r, n, o, s) == [k |-> k, r |-> r, n |-> n, o |-> o, s |-> s, i |-> << >>]

Pts == {"pt2", "pt3"}
Ops == {"opu", "opn"}
Items == {"solid", "poly", "item", "opq"}
(* kinds a reference may name, by kind of instance and place of the reference (the last one repeats) *)
Targets == [pt2 |-> << >>, pt3 |-> << >>, dir2 |-> << >>, dir3 |-> << >>, pl2 |-> << >>, pl3 |-> << >>, opq |-> << >>,
  poly |-> << Pts >>, icurve |-> << {"pl2", "pl3"} >>, ax2 |-> << {"pt2"}, {"dir2"} >>, ax3 |-> << {"pt3"}, {"dir3"}, {"dir3"} >>,
  rect |-> << {"ax2", "ax3"} >>, arb |-> << {"icurve", "poly"} >>, solid |-> << {"rect", "arb"}, {"ax3"}, {"dir3"} >>,
  opu |-> << {"dir3"}, {"dir3"}, {"pt3"}, {"dir3"} >>, opn |-> << {"dir3"}, {"dir3"}, {"pt3"}, {"dir3"} >>,
  rmap |-> << {"ax3"}, {"rep"} >>, item |-> << {"rmap"}, Ops >>,
  ctx |-> << {"ax2", "ax3"}, {"dir2", "dir3"} >>, sub |-> << {"ctx"} >>,
  rep |-> << {"ctx", "sub"}, Items >>, shape |-> << {"rep"} >>, prod |-> << {"shape"} >>]
Kinds == DOMAIN Targets
(* places of optional references, and whether there is a list *)
Optional == [k \in Kinds |-> CASE k = "ax2" -> {2} [] k = "ax3" -> {2, 3} [] k = "rect" -> {1} [] k = "solid" -> {2}
               [] k \in Ops -> {1, 2, 3, 4} [] k = "ctx" -> {2} [] k = "prod" -> {1} [] OTHER -> {}]
Listing == {"poly", "rep", "shape"}
(* places that can hold an inline part (the interface allows it there only) *)
Inlinable == [k \in Kinds |-> CASE k = "item" -> {1} [] k = "rmap" -> {1, 2} [] OTHER -> {}]

Target(k, j) == LET t == Targets[k] IN t[IF j > Len(t) THEN Len(t) ELSE j]
WellTyped(I, x) ==
  \A j \in DOMAIN x.r : \/ x.r[j] <= 0 /\ j \in Optional[x.k]
                        \/ x.r[j] > 0 /\ x.r[j] \in DOMAIN I /\ I[x.r[j]].k \in Target(x.k, j)
(* a polyline is in the plane or in space *)
Level(I, x) == x.k = "poly" => x.r # << >> /\ \A j \in DOMAIN x.r : I[x.r[j]].k = I[x.r[1]].k

(***************************************************************************)
(* Views of the instances of a model I                                     *)
(***************************************************************************)
Coords(I, p) == I[p].n
Opt(F(_), p) == IF p <= 0 THEN << >> ELSE << F(p) >>
Given(o) == IF Len(o) = 2 THEN << >> ELSE o
Cut(n, d) == [j \in 1..(Len(n) \div d) |-> SubSeq(n, ((j - 1) * d) + 1, j * d)]

Axis2(I, p) == LET x == I[p] IN << Coords(I, x.r[1]), Opt(LAMBDA q : Coords(I, q), x.r[2]) >>
Axis3(I, p) == LET x == I[p] IN << Coords(I, x.r[1]), Opt(LAMBDA q : Coords(I, q), x.r[2]), Opt(LAMBDA q : Coords(I, q), x.r[3]) >>
PolyV(I, p) == LET x == I[p] IN << (IF I[x.r[1]].k = "pt2" THEN "2" ELSE "3"), [j \in DOMAIN x.r |-> Coords(I, x.r[j])] >>
CurveV(I, p) == IF I[p].k = "poly" THEN PolyV(I, p)
                ELSE LET l == I[I[p].r[1]] IN IF l.k = "pl2" THEN << "2", Cut(l.n, 2) >> ELSE << "3", Cut(l.n, 3) >>
RectV(I, p) == LET x == I[p] IN
  << "rect", Opt(LAMBDA q : IF I[q].k = "ax2" THEN << "2", Axis2(I, q) >> ELSE << "3", Axis3(I, q) >>, x.r[1]), x.n >>
ArbV(I, p) == << "arb", I[p].s[1], CurveV(I, I[p].r[1]) >>
SolidV(I, p) == LET x == I[p] IN
  << (IF I[x.r[1]].k = "rect" THEN RectV(I, x.r[1]) ELSE ArbV(I, x.r[1])), Opt(LAMBDA q : Axis3(I, q), x.r[2]), Coords(I, x.r[3]), x.n >>
OpV(I, p) == LET x == I[p] IN
  << x.k, [j \in 1..4 |-> Opt(LAMBDA q : Coords(I, q), x.r[j])], [j \in DOMAIN x.o |-> Given(x.o[j])] >>
\* an item appears in a representation as what it is
Shown(k) == CASE k = "item" -> "MappedItem" [] k = "solid" -> "ExtrudedAreaSolid" [] k = "opq" -> "Dummy" [] OTHER -> "Other"
Parent(I, p) == LET c == I[p].r[1] IN IF I[c].k = "sub" THEN I[c].r[1] ELSE c
RepV(I, p) == LET its == Tail(I[p].r) IN
  << [j \in DOMAIN its |-> << Shown(I[its[j]].k), its[j] >>],
     SelectSeq(its, LAMBDA q : I[q].k = "solid"), SelectSeq(its, LAMBDA q : I[q].k = "item"), SelectSeq(its, LAMBDA q : I[q].k = "poly"), Parent(I, p) >>
ItemV(I, p) == LET m == I[p].r[1] IN << Axis3(I, I[m].r[1]), IF 2 \in Range(I[m].i) THEN 0 ELSE I[m].r[2], RepV(I, I[m].r[2]), OpV(I, I[p].r[2]) >>
ProdV(I, p) == IF I[p].r[1] <= 0 THEN << >> ELSE I[I[p].r[1]].r

Viewed == {"ax2", "ax3", "poly", "rect", "arb", "solid", "opu", "opn", "item", "rep", "prod"}
View(I, p) == CASE I[p].k = "ax2" -> Axis2(I, p) [] I[p].k = "ax3" -> Axis3(I, p) [] I[p].k = "poly" -> PolyV(I, p) [] I[p].k = "rect" -> RectV(I, p)
                [] I[p].k = "arb" -> ArbV(I, p) [] I[p].k = "solid" -> SolidV(I, p) [] I[p].k \in Ops -> OpV(I, p) [] I[p].k = "item" -> ItemV(I, p)
                [] I[p].k = "rep" -> RepV(I, p) [] I[p].k = "prod" -> ProdV(I, p)

(***************************************************************************)
(* Changes of loaded instances; parts become inline after the last change. *)
(* An inline representation is no instance any more and has no number.     *)
(***************************************************************************)
Change(I, e) == [I EXCEPT ![e[1]] = e[2]]
NowOf(n) == FoldLeft(Change, insts, SubSeq(edits, 1, n))
Now == NowOf(Len(edits))

RECURSIVE Reach(_, _)
Reach(I, S) == LET T == S \cup UNION { { q \in Range(I[p].r) : q > 0 } : p \in S } IN IF T = S THEN S ELSE Reach(I, T)

WellFormed == LET I == Now IN \A p \in DOMAIN I : WellTyped(I, I[p]) /\ Level(I, I[p])
\* a change shows only where the changed instance is reached
Frame == edits = << >> \/ LET b == NowOf(Len(edits) - 1)  a == Now  e == edits[Len(edits)][1] IN
  \A p \in DOMAIN a : a[p].k \in Viewed /\ e \notin Reach(a, {p}) => View(a, p) = View(b, p)
=============================================================================
