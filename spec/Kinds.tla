------------------------------------ MODULE Kinds ------------------------------------
(***************************************************************************)
(* What the instances of a model are, and what they answer when asked:     *)
(* whether they are part of the structure of a building, which part, which *)
(* shape they have, and which instances of a kind there are.  The model    *)
(* changes by instances being put in, replaced, removed and reshaped.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Parts  == << "Wall", "Slab", "Roof", "Window", "Door", "ShadingDevice" >>
Spaces == << "Site", "Building", "Storey", "Space" >>
Others == << "OpeningElement", "Project", "WallType", "SlabType", "RoofType", "WindowType", "DoorType", "SpaceType", "ShadingDeviceType",
             "Material", "ProductDefinitionShape", "PropertySet", "Organization", "Dummy" >>
All    == Parts \o Spaces \o Others
Products == Range(Parts) \cup Range(Spaces) \cup { "OpeningElement" }
Shapeable == Range(Parts) \cup { "OpeningElement" }     \* kinds that can be asked for their shape
Omitted == 0
Derived == -1

VARIABLE m      \* number -> [k: kind, rep: number of a shape, or Omitted or Derived, serial: tells instances of a kind apart]

Obj(k, rep, s) == [k |-> k, rep |-> IF k \in Products THEN rep ELSE Omitted, serial |-> s]
Put(f, i, x) == [y \in DOMAIN f \cup {i} |-> IF y = i THEN x ELSE f[y]]
Top(f) == IF DOMAIN f = {} THEN 0 ELSE CHOOSE x \in DOMAIN f : \A y \in DOMAIN f : y <= x

Insert(i, k, rep, s)  == m' = Put(m, i, Obj(k, rep, s))
InsertNew(k, rep, s)  == m' = Put(m, Top(m) + 1, Obj(k, rep, s))
Delete(i)             == m' = [y \in DOMAIN m \ {i} |-> m[y]]
Reshape(i, rep)       == i \in DOMAIN m /\ m[i].k \in Products /\ m' = [m EXCEPT ![i].rep = rep]
\* changes a representation that is there, and nothing else
Redirect(i, rep)      == Reshape(i, IF m[i].rep > 0 THEN rep ELSE m[i].rep)

(* --- answers ------------------------------------------------------------ *)
InStructure(k) == k \in Range(Parts) \cup Range(Spaces)
Part(k)  == IF k \in Range(Parts) THEN k ELSE "none"
Shape(x) == IF x.k \in Shapeable /\ x.rep > 0 THEN x.rep ELSE 0
Sorted(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
\* the representation: omitted, derived or given, and which
State(x) == IF x.k \in Products THEN << x.rep = Omitted, x.rep = Derived, x.rep > 0, IF x.rep > 0 THEN x.rep ELSE 0 >> ELSE << >>
About(i) == << i, m[i].k, m[i].serial, InStructure(m[i].k), Part(m[i].k), Shape(m[i]), State(m[i]) >>
Answers  == [i \in 1..Cardinality(DOMAIN m) |-> About(Sorted(DOMAIN m)[i])]
OfKind(k) == Sorted({ i \in DOMAIN m : m[i].k = k })

(* the kinds divide the instances *)
Divided == FoldSeq(LAMBDA k, n : n + Len(OfKind(k)), 0, All) = Cardinality(DOMAIN m)
PartsAreStructure == \A k \in Range(All) : Part(k) /= "none" => InStructure(k)
ShapesOfProducts == \A i \in DOMAIN m : Shape(m[i]) /= 0 => m[i].k \in Products
=============================================================================
