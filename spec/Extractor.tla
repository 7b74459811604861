------------------------------- MODULE Extractor -------------------------------
(***************************************************************************)
(* What the extractor returns for a model.  A model is the fixed cast of   *)
(* objects below and the relations among them: records [id, k, a, b] of    *)
(* number, kind, relating object and sequence of related objects, all by   *)
(* number.  Relations are read in the ascending order of their numbers.    *)
(* A history adds relations to the file and, after it is loaded, removes   *)
(* some or replaces their members through the model.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES rels,     \* the relations of the file, in its order
          edits     \* changes after loading: << id, members >> (no members: removed)
vars == << rels, edits >>

Kinds == << << "Project", 2 >>, << "Site", 2 >>, << "Building", 2 >>, << "Storey", 2 >>, << "Space", 2 >>, << "Wall", 2 >>, << "Slab", 2 >>, << "Roof", 2 >>,
            << "Window", 2 >>, << "Door", 2 >>, << "ShadingDevice", 1 >>, << "OpeningElement", 3 >>,
            << "WallType", 2 >>, << "SlabType", 2 >>, << "RoofType", 2 >>, << "WindowType", 2 >>, << "DoorType", 2 >>,
            << "MaterialLayer", 3 >>, << "MaterialLayerSet", 3 >>, << "MaterialLayerSetUsage", 3 >>,
            << "MaterialConstituent", 3 >>, << "MaterialConstituentSet", 3 >>, << "Material", 1 >>, << "Opaque", 1 >> >>
\* numbers: 100 * position of the kind + 1, 2, ...
Base(k) == 100 * (CHOOSE i \in DOMAIN Kinds : Kinds[i][1] = k)
OfKind(k) == LET b == Base(k) IN [j \in 1..Kinds[b \div 100][2] |-> b + j]
OfKinds(ks) == FlattenSeq([i \in DOMAIN ks |-> OfKind(ks[i])])
Kind(i) == Kinds[i \div 100][1]
\* members of the sets of the cast, the set a usage is of
Members == [k \in {"MaterialLayerSet", "MaterialConstituentSet"} |->
  LET c == IF k = "MaterialLayerSet" THEN Base("MaterialLayer") ELSE Base("MaterialConstituent") IN
  << << c + 1, c + 2 >>, << c + 3, c + 2, c + 3 >>, << >> >>]
SetOf == [j \in 1..3 |-> Base("MaterialLayerSet") + (<< 2, 1, 3 >>)[j]]
In(s) == Members[Kind(s)][s % 100]

(* what may stand where: relating and related objects of a kind of relation *)
Spatial == << "Site", "Building", "Storey" >>
Typing == << << "WallType", "Wall" >>, << "SlabType", "Slab" >>, << "RoofType", "Roof" >>, << "WindowType", "Window" >>, << "DoorType", "Door" >> >>
Relating == TLCEval([agg |-> OfKinds(<< "Project" >> \o Spatial), cont |-> OfKinds(Spatial \o << "OpeningElement", "Slab", "Roof", "Wall", "Window", "Door" >>),
             void |-> OfKinds(<< "Building", "OpeningElement", "Slab", "Wall", "Window" >>),
             mat |-> OfKinds(<< "MaterialLayerSetUsage", "MaterialConstituentSet", "MaterialLayerSet", "Material" >>),
             type |-> OfKinds(<< "WallType", "SlabType", "RoofType", "WindowType", "DoorType" >>)])
Anything == TLCEval(OfKinds(<< "Wall", "Slab", "Roof", "Window", "Door", "ShadingDevice", "Space", "Storey", "OpeningElement", "WallType", "Opaque" >>))
Aggregated == TLCEval(OfKinds(Spatial \o << "Space" >>))
Contained == TLCEval(OfKinds(Spatial \o << "OpeningElement", "Slab", "Roof", "Wall", "Window", "Door", "ShadingDevice" >>))
TypedBy(t) == OfKind(Typing[CHOOSE i \in DOMAIN Typing : Typing[i][1] = Kind(t)][2])
Related(k, a) == CASE k = "agg" -> Aggregated [] k = "cont" -> Contained [] k = "void" -> OfKind("OpeningElement")
                   [] k = "mat" -> Anything [] k = "type" -> TypedBy(a)

(***************************************************************************)
(* The model after the edits, and what is asked of it                      *)
(***************************************************************************)
Edited(rs, e) ==      \* a relation named twice is changed twice
  IF e[2] = << >> THEN SelectSeq(rs, LAMBDA r : r.id # e[1])
  ELSE [i \in DOMAIN rs |-> IF rs[i].id = e[1] THEN [rs[i] EXCEPT !.b = e[2]] ELSE rs[i]]
Now == SortSeq(FoldLeft(Edited, rels, edits), LAMBDA x, y : x.id < y.id)
These(k, P(_)) == SelectSeq(Now, LAMBDA r : r.k = k /\ P(r))
Gather(rs, F(_)) == FlattenSeq([i \in DOMAIN rs |-> F(rs[i])])

Parts(x, k) == Gather(These("agg", LAMBDA r : r.a = x), LAMBDA r : SelectSeq(r.b, LAMBDA y : Kind(y) = k))
Content(x) == Gather(These("cont", LAMBDA r : r.a = x), LAMBDA r : r.b)
Naming(k, x) == These(k, LAMBDA r : \E i \in DOMAIN r.b : r.b[i] = x)
TypeOf(x) == LET ts == Naming("type", x) IN IF ts = << >> THEN << >> ELSE << ts[1].a >>
Voids(x) == Gather(These("void", LAMBDA r : r.a = x), LAMBDA r : r.b)
Layers(x) == Gather(Naming("mat", x), LAMBDA r : IF Kind(r.a) = "MaterialLayerSetUsage" THEN In(SetOf[r.a % 100]) ELSE << >>)
Constituents(x) == Gather(Naming("mat", x), LAMBDA r : IF Kind(r.a) = "MaterialConstituentSet" THEN In(r.a) ELSE << >>)

(* questions with an answer, all others have an empty one                  *)
Q(q, x, k, r) == [q |-> q, x |-> x, k |-> k, r |-> r]
Structures == << "Site", "Building", "Storey", "Space", "Wall", "Slab", "Roof", "Window", "Door", "ShadingDevice", "OpeningElement" >>
Asked == TLCEval(OfKinds(Structures))
Answers ==
  Gather(Relating.agg, LAMBDA x : Gather(Spatial \o << "Space" >>, LAMBDA k : << Q("parts", x, k, Parts(x, k)) >>)) \o
  Gather(Asked, LAMBDA x : << Q("content", x, "", Content(x)), Q("voids", x, "", Voids(x)), Q("layers", x, "", Layers(x)), Q("constituents", x, "", Constituents(x)) >>) \o
  Gather(OfKinds(<< "Wall", "Slab", "Roof", "Window", "Door" >>), LAMBDA x : << Q("type", x, "", TypeOf(x)) >>)
Given == SelectSeq(Answers, LAMBDA a : a.r # << >>)

(***************************************************************************)
(* Laws: nothing is lost, nothing is invented                              *)
(***************************************************************************)
Pairs(k) == Gather(These(k, LAMBDA r : TRUE), LAMBDA r : [i \in DOMAIN r.b |-> << r.a, r.b[i] >>])
Bag(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
SameBag(s, t) == \A x \in Range(s) \cup Range(t) : Bag(s, x) = Bag(t, x)
Whole ==
  /\ SameBag(Pairs("agg"), Gather(Relating.agg, LAMBDA x : Gather(Spatial \o << "Space" >>, LAMBDA k : LET p == Parts(x, k) IN [i \in DOMAIN p |-> << x, p[i] >>])))
  /\ SameBag(Pairs("cont"), Gather(Asked, LAMBDA x : LET p == Content(x) IN [i \in DOMAIN p |-> << x, p[i] >>]))
  /\ SameBag(Pairs("void"), Gather(Asked, LAMBDA x : LET p == Voids(x) IN [i \in DOMAIN p |-> << x, p[i] >>]))
TypesFit == \A i \in DOMAIN Typing : \A x \in Range(OfKind(Typing[i][2])) : \A t \in Range(TypeOf(x)) : Kind(t) = Typing[i][1]
=============================================================================
