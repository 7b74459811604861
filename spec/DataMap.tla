---------------------------------- MODULE DataMap ----------------------------------
(***************************************************************************)
(* The data map of a model: a partial function from numbers to instances,  *)
(* with every operation that changes it, directly or through constructors  *)
(* that add instances of their own.  An instance is its type and its text. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

Put(f, id, v) == [x \in DOMAIN f \cup {id} |-> IF x = id THEN v ELSE f[x]]
Del(f, id)    == [x \in DOMAIN f \ {id} |-> f[x]]
MaxOf(s)      == CHOOSE x \in s : \A y \in s : y <= x
Fresh(f)      == IF DOMAIN f = {} THEN 1 ELSE MaxOf(DOMAIN f) + 1
Ref(id)       == "#" \o ToString(id)

Types    == << "Material", "Organization", "PropertySingleValue" >>      \* with a text of one's own
Defaults == << "MaterialLayerSet", "MaterialConstituentSet" >>           \* with a default value
Inst(ty, v) ==
  [ty |-> ty,
   text |-> CASE ty = "Material" -> "IFCMATERIAL('" \o v \o "',$,$)"
              [] ty = "Organization" -> "IFCORGANIZATION($,'" \o v \o "',$,$,$)"
              [] ty = "PropertySingleValue" -> "IFCPROPERTYSINGLEVALUE('" \o v \o "',$,IFCLABEL('" \o v \o "'),$)"
              [] ty = "MaterialLayerSet" -> "IFCMATERIALLAYERSET((),$,$)"
              [] ty = "MaterialConstituentSet" -> "IFCMATERIALCONSTITUENTSET($,$,())"]
None == "none"
TextAt(f, id) == IF id \in DOMAIN f THEN f[id].text ELSE None

(* instances a constructor adds when it is given values instead of references, in order; r is the first number *)
Kinds == << "layer", "axis", "usage", "placement", "constituents", "polyline", "rectangle" >>
Lay(m) == [ty |-> "MaterialLayer", text |-> "IFCMATERIALLAYER(" \o m \o ",1.,.FALSE.,$,$,$,$)"]
Pnt(x) == [ty |-> "Point3D", text |-> "IFCCARTESIANPOINT((" \o ToString(x) \o ".,0.,0.))"]
Implied(kind, r, v) ==
  CASE kind = "layer"  -> << Inst("Material", v), Lay(Ref(r)) >>
    [] kind = "axis"   -> << Pnt(1), [ty |-> "Axis3D", text |-> "IFCAXIS2PLACEMENT3D(" \o Ref(r) \o ",$,$)"] >>
    [] kind = "usage"  -> << Inst("Material", v), Lay(Ref(r)), Lay(Ref(r)),
                             [ty |-> "MaterialLayerSet", text |-> "IFCMATERIALLAYERSET((" \o Ref(r + 1) \o "," \o Ref(r + 2) \o "),$,$)"],
                             [ty |-> "MaterialLayerSetUsage", text |-> "IFCMATERIALLAYERSETUSAGE(" \o Ref(r + 3) \o ",.AXIS2.,.POSITIVE.,2.,$)"] >>
    [] kind = "placement" -> << Pnt(2), [ty |-> "Axis3D", text |-> "IFCAXIS2PLACEMENT3D(" \o Ref(r) \o ",$,$)"],
                                [ty |-> "LocalPlacement", text |-> "IFCLOCALPLACEMENT($," \o Ref(r + 1) \o ")"] >>
    [] kind = "constituents" -> << Inst("Material", v),
                                   [ty |-> "MaterialConstituent", text |-> "IFCMATERIALCONSTITUENT($,$," \o Ref(r) \o ",$,$)"],
                                   [ty |-> "MaterialConstituentSet", text |-> "IFCMATERIALCONSTITUENTSET($,$,(" \o Ref(r + 1) \o "))"] >>
    [] kind = "polyline" -> << Pnt(1), Pnt(2), Pnt(3), [ty |-> "PolyLine", text |-> "IFCPOLYLINE((" \o Ref(r) \o "," \o Ref(r + 1) \o "," \o Ref(r + 2) \o "))"] >>
    [] kind = "rectangle" -> << [ty |-> "RectangleProfileDef", text |-> "IFCRECTANGLEPROFILEDEF(.AREA.,$,$,1.,2.)"],
                                [ty |-> "Direction3D", text |-> "IFCDIRECTION((0.,0.,1.))"],
                                [ty |-> "ExtrudedAreaSolid", text |-> "IFCEXTRUDEDAREASOLID(" \o Ref(r) \o ",$," \o Ref(r + 1) \o ",3.)"] >>

VARIABLES m,            \* the map
          res           \* what the last operation returned
Change(f, r) == m' = f /\ res' = r

Insert(id, ty, v)   == Change(Put(m, id, Inst(ty, v)), TextAt(m, id))
InsertNew(ty, v)    == Change(Put(m, Fresh(m), Inst(ty, v)), Ref(Fresh(m)))
InsertAbsent(id, ty) == Change(IF id \in DOMAIN m THEN m ELSE Put(m, id, Inst(ty, "")), None)
Drop(id)            == Change(Del(m, id), TextAt(m, id))
Modify(id, v)       == /\ id \in DOMAIN m /\ m[id].ty \in Range(Types)
                       /\ Change(Put(m, id, Inst(m[id].ty, v)), None)
Construct(kind, v)  == LET r == Fresh(m)
                           q == Implied(kind, r, v) IN
                       Change([x \in DOMAIN m \cup (r..(r + Len(q) - 1)) |-> IF x \in DOMAIN m THEN m[x] ELSE q[x - r + 1]],
                              Ref(r + Len(q) - 1))

Apply(o) == CASE o.op = "insert" -> Insert(o.id, o.ty, o.v)
              [] o.op = "new"    -> InsertNew(o.ty, o.v)
              [] o.op = "absent" -> InsertAbsent(o.id, o.ty)
              [] o.op = "remove" -> Drop(o.id)
              [] o.op = "modify" -> Modify(o.id, o.v)
              [] o.op = "construct" -> Construct(o.kind, o.v)

Contents(f) == LET ids == SetToSortSeq(DOMAIN f, LAMBDA a, b : a < b)
               IN [i \in DOMAIN ids |-> << ids[i], f[ids[i]].ty, f[ids[i]].text >>]

=============================================================================
