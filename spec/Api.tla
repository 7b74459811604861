----------------------------------- MODULE Api -----------------------------------
(***************************************************************************)
(* The constructors and setters of the public interface.                    *)
(*                                                                          *)
(* For every type: its constructor with the attribute each parameter names, *)
(* and its setters, each with the one attribute it names and whether it     *)
(* replaces the value (set) or appends to it (add).  The behaviour is a     *)
(* machine whose state is the object under construction, attribute by       *)
(* attribute, and the number of instances stored so far.                    *)
(*                                                                          *)
(* A parameter that takes an instance has three forms:                      *)
(*   value   the instance itself: stored as one new instance                *)
(*   typed   a typed reference: nothing is stored                           *)
(*   id      a plain reference: nothing is stored                           *)
(* An attribute value is written with every reference to a new instance     *)
(* replaced by that instance in braces, so that the expected text does not  *)
(* depend on the order in which instances are numbered.                     *)
(***************************************************************************)
EXTENDS IfcStep, EnumApi

-----------------------------------------------------------------------------
(* parameters: attribute, kind, target types, enumeration *)
Par(a, k, ty, en) == [a |-> a, k |-> k, ty |-> ty, en |-> en]
PStr(a)      == Par(a, "str", << >>, "")
POStr(a)     == Par(a, "ostr", << >>, "")          \* optional text
PReal(a)     == Par(a, "real", << >>, "")
PInt(a)      == Par(a, "int", << >>, "")
PInts(a)     == Par(a, "ints", << >>, "")
PBool(a)     == Par(a, "bool", << >>, "")
PTime(a)     == Par(a, "time", << >>, "")
PEnum(a, e)  == Par(a, "enum", << >>, e)
POEnum(a, e) == Par(a, "oenum", << >>, e)          \* optional item
PRef(a, t)   == Par(a, "ref", t, "")               \* value, typed or plain reference
PTyped(a, t) == Par(a, "tref", << t >>, "")        \* typed reference only
PId(a, t)    == Par(a, "iref", t, "")              \* plain reference only
POId(a, t)   == Par(a, "oiref", t, "")             \* optional plain reference
PTypeds(a, t) == Par(a, "trefs", << t >>, "")      \* several typed references
PIds(a, t)   == Par(a, "irefs", t, "")             \* several plain references
PVal(a, t)   == Par(a, "val", t, "")               \* value only
PVals(a, t)  == Par(a, "vals", t, "")              \* several values
PRefs(a, t)  == Par(a, "refs", t, "")              \* several values or references
PValue(a)    == Par(a, "value", << >>, "")         \* property value
PVec2(a)     == Par(a, "vec2", << >>, "")
PVec3(a)     == Par(a, "vec3", << >>, "")
PDir2(a)     == Par(a, "dir2", << >>, "")           \* held as a unit vector
PDir3(a)     == Par(a, "dir3", << >>, "")
PVec2s(a)    == Par(a, "vec2s", << >>, "")
PVec3s(a)    == Par(a, "vec3s", << >>, "")

Set(fn, p) == [fn |-> fn, p |-> p, mode |-> "set", tr |-> "", also |-> {}]
SetAlso(fn, p, a) == [fn |-> fn, p |-> p, mode |-> "set", tr |-> "", also |-> {a}]    \* sets a second attribute, too
Add(fn, p) == [fn |-> fn, p |-> p, mode |-> "add", tr |-> "", also |-> {}]
AddT(fn, p, tr) == [fn |-> fn, p |-> p, mode |-> "add", tr |-> tr, also |-> {}]      \* of a generic trait

(* setters shared by families of types *)
RootFn    == << Set("owner_history", PRef("owner_history", << "OwnerHistory" >>)), Set("name", PStr("name")),
                 Set("description", PStr("description")) >>
ObjectFn  == RootFn \o << Set("object_type", PStr("object_type")) >>
ProductFn == ObjectFn \o << Set("object_placement", PRef("object_placement", << "LocalPlacement" >>)),
                              Set("representation", PRef("representation", << "ProductDefinitionShape" >>)) >>
ElementFn == ProductFn \o << Set("tag", PStr("tag")) >>
SpatialFn == ProductFn \o << Set("long_name", PStr("long_name")),
                               Set("composition_type", PEnum("composition_type", "CompositionTypeEnum")) >>
TypeFn    == RootFn \o << Set("tag", PStr("tag")), Set("element_type", PStr("element_type")) >>
ContextFn == ObjectFn \o << Set("long_name", PStr("long_name")), Set("phase", PStr("phase")),
                Add("add_context", PRef("representation_context", << "GeometricRepresentationContext" >>)),
                Set("unit_assignment", PRef("units_in_context", << "UnitAssigment" >>)) >>

NamedC == << PStr("name") >>
Relatable == << "Door", "Window", "Slab", "Roof", "Wall", "ShadingDevice", "DoorType", "WindowType", "SlabType", "RoofType",
                "WallType", "ShadingDeviceType" >>
Axes == << "Axis2D", "Axis3D" >>

(* base: value of the attributes that are neither omitted nor parameters *)
Class(ty, cf, par, sets) == [ty |-> ty, ctor |-> cf, par |-> par, sets |-> sets, fixed |-> << >>]
ClassF(ty, cf, par, sets, fixed) == [ty |-> ty, ctor |-> cf, par |-> par, sets |-> sets, fixed |-> fixed]

Classes == <<
  \* --- actors, ownership, project -------------------------------------------
  Class("Organization", "new", << POStr("id"), PStr("name"), POStr("description") >>,
        << Add("add_role", PRef("roles", << "ActorRole" >>)),
           Add("add_address", PRef("addresses", << "TelecomAddress", "PostalAddress" >>)) >>),
  Class("Application", "new", << PTyped("application_developer", "Organization"), PStr("version"),
        PStr("application_full_name"), PStr("application_identifier") >>, << >>),
  Class("ActorRole", "", << PEnum("role", "Role"), POStr("user_defined_role"), POStr("description") >>, << >>),
  Class("TelecomAddress", "", << POStr("purpose"), POStr("description"), POStr("user_defined_purpose"),
        POStr("pager_number"), POStr("homepage_url") >>, << >>),
  Class("PostalAddress", "", << POStr("purpose"), POStr("description"), POStr("user_defined_purpose"),
        POStr("internal_location"), POStr("postal_box"), POStr("region"), POStr("postal_code"), POStr("country") >>, << >>),
  Class("Person", "empty", << >>,
        << Set("id", PStr("id")), Set("family_name", PStr("family_name")), Set("given_name", PStr("given_name")),
           Add("add_middle_name", PStr("middle_names")), Add("add_suffix_title", PStr("suffix_titles")),
           Add("add_prefix_title", PStr("prefix_titles")), Add("add_role", PRef("roles", << "ActorRole" >>)),
           Add("add_address", PRef("addresses", << "TelecomAddress", "PostalAddress" >>)) >>),
  Class("PersonAndOrganization", "new", << PTyped("the_person", "Person"), PTyped("the_organization", "Organization") >>,
        << Add("add_role", PRef("roles", << "ActorRole" >>)) >>),
  Class("OwnerHistory", "new", << PEnum("change_action", "ChangeAction"), PTime("creation_date") >>,
        << SetAlso("owning_user", PRef("owning_user", << "PersonAndOrganization" >>), "last_modifying_user"),
           SetAlso("owning_application", PRef("owning_application", << "Application" >>), "last_modifying_application"),
           Set("state", PEnum("state", "AccessState")), Set("last_modified_date", PTime("last_modified_date")),
           Set("last_modifying_user", PRef("last_modifying_user", << "PersonAndOrganization" >>)),
           Set("last_modifying_application", PRef("last_modifying_application", << "Application" >>)) >>),
  Class("Project", "new", NamedC, ContextFn),
  \* --- spatial structure ----------------------------------------------------
  Class("Site", "new", NamedC, SpatialFn \o
        << Set("ref_latitude", PInts("ref_latitude")), Set("ref_longitude", PInts("ref_longitude")),
           Set("ref_elevation", PReal("ref_elevation")), Set("land_title_number", PStr("land_title_number")),
           Set("site_address", PRef("site_address", << "PostalAddress" >>)) >>),
  Class("Building", "new", NamedC, SpatialFn \o
        << Set("elevation_of_ref_height", PReal("elevation_of_ref_height")),
           Set("elevation_of_terrain", PReal("elevation_of_terrain")),
           Set("building_address", PRef("building_address", << "PostalAddress" >>)) >>),
  Class("Storey", "new", NamedC, SpatialFn),
  Class("Space", "new", NamedC, SpatialFn \o
        << Set("predefined_type", PEnum("predefined_type", "SpaceTypeEnum")),
           Set("elevation_with_flooring", PReal("elevation_with_flooring")) >>),
  \* --- elements ---------------------------------------------------------------
  Class("Wall", "new", NamedC, ElementFn \o << Set("predefined_type", PRef("predefined_type", << "WallType" >>)) >>),
  Class("Slab", "new", NamedC, ElementFn \o << Set("predefined_type", PEnum("predefined_type", "SlabTypeEnum")) >>),
  Class("Roof", "new", NamedC, ElementFn \o << Set("predefined_type", PEnum("predefined_type", "RoofTypeEnum")) >>),
  Class("ShadingDevice", "new", NamedC, ElementFn \o
        << Set("predefined_type", PEnum("predefined_type", "ShadingDeviceTypeEnum")) >>),
  Class("OpeningElement", "new", NamedC, ElementFn \o
        << Set("predefined_type", PEnum("predefined_type", "OpeningElementTypeEnum")) >>),
  Class("Door", "new", NamedC, ElementFn \o
        << Set("overall_height", PReal("overall_height")), Set("overall_width", PReal("overall_width")),
           Set("predefined_type", PEnum("predefined_type", "DoorTypeEnum")),
           Set("operation_type", PEnum("operation_type", "DoorOperationTypeEnum")) >>),
  Class("Window", "new", NamedC, ElementFn \o
        << Set("overall_height", PReal("overall_height")), Set("overall_width", PReal("overall_width")),
           Set("predefined_type", PEnum("predefined_type", "WindowTypeEnum")),
           Set("partitioning_type", PEnum("partitioning_type", "WindowPartitioningTypeEnum")) >>),
  \* --- element types ------------------------------------------------------------
  Class("WallType", "new", NamedC \o << PEnum("predefined_type", "WallTypeEnum") >>, TypeFn),
  Class("SlabType", "new", NamedC \o << PEnum("predefined_type", "SlabTypeEnum") >>, TypeFn),
  Class("RoofType", "new", NamedC \o << PEnum("predefined_type", "RoofTypeEnum") >>, TypeFn),
  Class("ShadingDeviceType", "new", NamedC \o << PEnum("predefined_type", "ShadingDeviceTypeEnum") >>, TypeFn),
  Class("SpaceType", "new", NamedC \o << PEnum("predefined_type", "SpaceTypeEnum") >>, TypeFn),
  Class("DoorType", "new", NamedC \o << PEnum("predefined_type", "DoorTypeEnum"),
        PEnum("operation_type", "DoorOperationTypeEnum") >>, TypeFn),
  Class("WindowType", "new", NamedC \o << PEnum("predefined_type", "WindowTypeEnum"),
        PEnum("partitioning_type", "WindowPartitioningTypeEnum") >>, TypeFn),
  \* --- relations ----------------------------------------------------------------
  Class("RelAggregates", "new", NamedC \o << PId("relating_object", << "Project", "Site", "Building", "Storey" >>),
        PIds("related_objects", << "Site", "Building", "Storey", "Space" >>) >>, RootFn),
  Class("RelAssociatesMaterial", "new", NamedC \o << PRef("relating_material",
        << "MaterialLayerSetUsage", "MaterialLayerSet", "MaterialConstituentSet", "Material" >>) >>,
        RootFn \o << AddT("relate_obj", PRef("related_objects", Relatable), "RelAssociatesBuilder") >>),
  Class("RelContainedInSpatialStructure", "new", NamedC \o << PRef("relating_structure",
        << "Storey", "Building", "Site", "Wall", "Slab", "Window", "Door", "OpeningElement" >>) >>,
        RootFn \o << Add("relate_structure", PRef("related_elements",
           << "Wall", "Slab", "Roof", "Window", "Door", "ShadingDevice", "OpeningElement", "Storey", "Building", "Site" >>)) >>),
  Class("RelDeclares", "new", NamedC \o << PRef("relating_context", << "Project" >>) >>,
        RootFn \o << Add("relate_definition", PRef("related_definitions", << "WallType", "SlabType", "PropertySet" >>)) >>),
  Class("RelDefinesByProperties", "new", NamedC \o << PRef("relating_property_definition", << "PropertySet" >>) >>,
        RootFn \o << Add("relate_obj", PRef("related_objects", << "Wall", "Slab", "Storey", "Window", "Space" >>)) >>),
  Class("RelDefinesByType", "new", NamedC \o << PRef("relating_type",
        << "WallType", "SlabType", "RoofType", "WindowType", "DoorType", "SpaceType", "ShadingDeviceType" >>) >>,
        RootFn \o << Add("relate_obj", PRef("related_objects",
           << "Wall", "Slab", "Roof", "Window", "Door", "Space", "ShadingDevice" >>)) >>),
  Class("RelFillsElement", "new", NamedC \o << PRef("relating_opening_element", << "OpeningElement" >>),
        PRef("related_building_element", << "Window", "Door", "Wall", "Slab", "Building" >>) >>, RootFn),
  Class("RelVoidsElement", "new", NamedC \o << PRef("relating_building_element", << "Wall", "Slab", "Window", "Building" >>),
        PRef("related_opening_element", << "OpeningElement" >>) >>, RootFn),
  Class("MappedItem", "new", << PRef("source", << "RepresentationMap" >>), PRef("target",
        << "CartesianTransformationOperator3DnonUniform", "CartesianTransformationOperator3D" >>) >>, << >>),
  Class("RepresentationMap", "new", << PRef("origin", << "Axis3D" >>), PRef("representation", << "ShapeRepresentation" >>) >>, << >>),
  \* --- geometry -------------------------------------------------------------------
  Class("ArbitraryClosedProfileDef", "new", << PEnum("profile_type", "ProfileType"),
        PRef("outer_curve", << "IndexedPolyCurve", "PolyLine" >>) >>, << Set("profile_name", PStr("profile_name")) >>),
  Class("RectangleProfileDef", "new", << PEnum("profile_type", "ProfileType"), PReal("x_dim"), PReal("y_dim") >>,
        << Set("profile_name", PStr("profile_name")), Set("position", PRef("position", Axes)) >>),
  Class("Axis2D", "new", << PVal("location", << "Point2D" >>) >>, << >>),
  Class("Axis3D", "new", << PVal("location", << "Point3D" >>) >>, << >>),
  Class("Direction2D", "from", << PDir2("0") >>, << >>),
  Class("Direction3D", "from", << PDir3("0") >>, << >>),
  Class("Point2D", "from", << PVec2("0") >>, << >>),
  Class("Point3D", "from", << PVec3("0") >>, << >>),
  Class("PointList2D", "new", << PVec2s("coord_list") >>, << >>),
  Class("PointList3D", "new", << PVec3s("coord_list") >>, << >>),
  Class("IndexedPolyCurve", "new", << PVal("points", << "PointList2D", "PointList3D" >>) >>, << >>),
  Class("PolyLine", "from", << PVals("points", << "Point2D", "Point3D" >>) >>, << >>),
  Class("ExtrudedAreaSolid", "new", << PRef("swept_area", << "RectangleProfileDef", "ArbitraryClosedProfileDef" >>),
        PRef("extruded_direction", << "Direction3D" >>), PReal("depth") >>, << Set("position", PRef("position", << "Axis3D" >>)) >>),
  Class("ProductDefinitionShape", "new", << >>, << Set("name", PStr("name")), Set("description", PStr("description")),
        Add("add_representation", PRef("representations", << "ShapeRepresentation" >>)) >>),
  ClassF("GeometricRepresentationContext", "new", << PEnum("coord_space_dimension", "DimensionCount"),
        PRef("world_coord_system", Axes) >>, << Set("precision", PReal("precision")),
        Set("true_north", PRef("true_north", << "Direction2D", "Direction3D" >>)) >>,
        << <<"context_identifier", "'Body'">>, <<"context_type", "'Model'">> >>),
  ClassF("GeometricRepresentationSubContext", "derive", << PRef("parent_context", << "GeometricRepresentationContext" >>),
        PEnum("target_view", "GeometricProjection") >>, << Set("target_scale", PReal("target_scale")),
        Set("user_defined_target_view", PStr("user_defined_target_view")) >>,
        << <<"context_identifier", "'Body'">>, <<"context_type", "'Model'">>, <<"coord_space_dimension", "*">>, <<"precision", "*">>,
           <<"world_coord_system", "*">>, <<"true_north", "*">> >>),
  Class("ShapeRepresentation", "new", << PRef("context_of_items", << "GeometricRepresentationSubContext" >>),
        PEnum("representation_identifier", "RepresentationIdentifier"), PEnum("representation_type", "RepresentationType") >>,
        << Add("add_item", PVal("items", << "ExtrudedAreaSolid", "PolyLine", "MappedItem" >>)) >>),
  Class("LocalPlacement", "new", << PRef("relative_placement", Axes) >>,
        << Set("relative_to", PRef("placement_rel_to", << "LocalPlacement" >>)) >>),
  Class("CartesianTransformationOperator3D", "new", << PRef("local_origin", << "Point3D" >>), PRef("axis_x", << "Direction3D" >>),
        PRef("axis_y", << "Direction3D" >>), PRef("axis_z", << "Direction3D" >>), PReal("scale") >>, << >>),
  Class("CartesianTransformationOperator3DnonUniform", "new", << PRef("local_origin", << "Point3D" >>),
        PRef("axis_x", << "Direction3D" >>), PRef("axis_y", << "Direction3D" >>), PRef("axis_z", << "Direction3D" >>),
        PReal("scale"), PReal("scale_y"), PReal("scale_z") >>, << >>),
  \* --- materials --------------------------------------------------------------------
  Class("Material", "new", << PStr("material") >>, << Set("description", PStr("description")), Set("category", PStr("category")) >>),
  Class("MaterialConstituent", "new", << PTyped("material", "Material") >>,
        << Set("material", PRef("material", << "Material" >>)), Set("name", PStr("name")), Set("description", PStr("description")),
           Set("category", PStr("category")), Set("fraction", PReal("fraction")) >>),
  Class("MaterialConstituentSet", "new", << >>, << Set("name", PStr("name")), Set("description", PStr("description")),
        Add("add_constituent", PRef("material_constituents", << "MaterialConstituent" >>)) >>),
  Class("MaterialLayer", "new", << PReal("layer_thickness"), PBool("is_ventilated") >>,
        << Set("material", PRef("material", << "Material" >>)), Set("name", PStr("name")), Set("description", PStr("description")),
           Set("category", PStr("category")), Set("priority", PInt("priority")) >>),
  Class("MaterialLayerSet", "new", << >>, << Set("name", PStr("layer_set_name")), Set("description", PStr("description")),
        Add("add_layer", PRef("material_layers", << "MaterialLayer" >>)) >>),
  Class("MaterialLayerSetUsage", "new", << PRef("spatial_element_structure", << "MaterialLayerSet" >>),
        PEnum("layer_set_direction", "LayerSetDirectionEnum"), PEnum("direction_sense", "DirectionSenseEnum"),
        PReal("offset_from_reference_line") >>, << Set("reference_extent", PReal("reference_extent")) >>),
  \* --- properties and units -----------------------------------------------------------
  Class("PropertySet", "new", NamedC \o << PTypeds("properties", "PropertySingleValue") >>, RootFn),
  Class("PropertySingleValue", "new", NamedC \o << PValue("value"), POId("unit", << "SiUnit" >>) >>,
        << Set("name", PStr("name")), Set("description", PStr("description")) >>),
  Class("UnitAssigment", "new", << PRefs("units", << "SiUnit" >>) >>, << >>),
  ClassF("SiUnit", "new", << POEnum("unit_type", "IfcUnitEnum"), POEnum("prefix", "IfcPrefix"), PEnum("name", "IfcUnitName") >>, << >>,
        << <<"dimensions", "*">> >>)
>>

-----------------------------------------------------------------------------
(* The table is consistent with the schema. *)
CN == DOMAIN Classes
ClassOf(ty) == CHOOSE c \in CN : Classes[c].ty = ty
AttrsOf(c) == Entities[EntOf(Classes[c].ty)].f
AttrIx(c, a) == CHOOSE i \in DOMAIN AttrsOf(c) : AttrsOf(c)[i].n = a
FitsSchema(c, p) ==
  /\ \E i \in DOMAIN AttrsOf(c) : AttrsOf(c)[i].n = p.a
  /\ AttrsOf(c)[AttrIx(c, p.a)].t # {} => \A j \in DOMAIN p.ty : p.ty[j] \in AttrsOf(c)[AttrIx(c, p.a)].t
  /\ \A j \in DOMAIN p.ty : \E d \in CN : Classes[d].ty = p.ty[j]
ASSUME \A c \in CN : /\ \A i \in DOMAIN Classes[c].par : FitsSchema(c, Classes[c].par[i])
                     /\ \A i \in DOMAIN Classes[c].sets : FitsSchema(c, Classes[c].sets[i].p)

(* the instances of the base model: two of every type *)
IdA(ty) == ToString(10 * ClassOf(ty))
IdB(ty) == ToString(10 * ClassOf(ty) + 5)

EnumOf(en) == EnumTable[CHOOSE i \in DOMAIN EnumTable : EnumTable[i].enum = en].items
Item(en, n) == LET q == EnumOf(en) IN q[(n % Len(q)) + 1]

-----------------------------------------------------------------------------
(* Arguments.  s is what is handed to the interface, e what it is in the file, z how many *)
(* instances it adds, l the items it is appended as (list attributes).                   *)
Arg(k, f, ty, s, e, z) == [k |-> k, f |-> f, ty |-> ty, s |-> s, e |-> e, z |-> z]
Txt(x) == "'" \o x \o "'"
Lit(k, s, e) == Arg(k, "", "", s, e, 0)
TimeOf(n) == ToString(1000000000 + n)
RealOf(n) == ToString(n) \o ".5"
Values(n) == << Lit("value", "label:v" \o ToString(n), "IFCLABEL('v" \o ToString(n) \o "')"),
                Lit("value", "real:" \o RealOf(n), "IFCREAL(" \o RealOf(n) \o ")"),
                Lit("value", "bool:true", "IFCBOOLEAN(.TRUE.)"), Lit("value", "bool:false", "IFCBOOLEAN(.FALSE.)"),
                Lit("value", "identifier:i" \o ToString(n), "IFCIDENTIFIER('i" \o ToString(n) \o "')"),
                Lit("value", "thermal:" \o RealOf(n), "IFCTHERMALTRANSMITTANCEMEASURE(" \o RealOf(n) \o ")") >>
(* vectors with the unit vectors they stand for *)
Dir2(n) == IF n % 2 = 0 THEN << "0 5", "(0.,1.)" >> ELSE << "1.2 -1.6", "(0.6,-0.8)" >>
Dir3(n) == IF n % 2 = 0 THEN << "0 0 -4", "(0.,0.,-1.)" >> ELSE << "1.2 0 -1.6", "(0.6,0.,-0.8)" >>
Vec2(n) == << RealOf(n), "-2.25" >>
Vec3(n) == << "1.", RealOf(n), "-0.75" >>
VecS(v) == Join(v, " ")
VecE(v) == "(" \o Join(v, ",") \o ")"
RefArg(f, ty, id) == Arg("ref", f, ty, id, "#" \o id, 0)

(* the instance that stands for a value of a type: its constructor with plain arguments *)
Fill(c, vals) ==      \* vals: attribute -> text, for those that are given
  LET f == TLCEval(AttrsOf(c))
      fx == Classes[c].fixed
      Dflt(i) == IF \E j \in DOMAIN fx : fx[j][1] = f[i].n THEN fx[CHOOSE j \in DOMAIN fx : fx[j][1] = f[i].n][2]
                 ELSE IF f[i].k = "guid" THEN "?"
                 ELSE IF f[i].k = "reflist" /\ ~f[i].o THEN "()" ELSE "$"
  IN  [i \in DOMAIN f |-> IF f[i].n \in DOMAIN vals THEN vals[f[i].n] ELSE Dflt(i)]
Show(c, q) == Entities[EntOf(Classes[c].ty)].kw \o "(" \o Join(q, ",") \o ")"

(* the plain argument for a parameter; base: within the base model, where nothing new is stored *)
SampleArg(p, n, base, tab) ==
  CASE p.k = "str"   -> Lit("str", "s" \o ToString(n), Txt("s" \o ToString(n)))
    [] p.k = "ostr"  -> Lit("ostr", "o" \o ToString(n), Txt("o" \o ToString(n)))
    [] p.k = "real"  -> Lit("real", RealOf(n), RealOf(n))
    [] p.k = "int"   -> Lit("int", ToString(n), ToString(n))
    [] p.k = "ints"  -> Lit("ints", ToString(n) \o " -3", "(" \o ToString(n) \o ",-3)")
    [] p.k = "bool"  -> Lit("bool", IF n % 2 = 0 THEN "true" ELSE "false", IF n % 2 = 0 THEN ".TRUE." ELSE ".FALSE.")
    [] p.k = "time"  -> Lit("time", TimeOf(n), TimeOf(n))
    [] p.k \in {"enum", "oenum"} -> Lit(p.k, Item(p.en, n)[1], Item(p.en, n)[2])
    [] p.k \in {"ref", "tref", "iref", "oiref"} -> [RefArg("typed", p.ty[1], IdA(p.ty[1])) EXCEPT !.k = p.k]
    [] p.k \in {"trefs", "irefs", "refs"} ->
         Arg(p.k, "typed", p.ty[1], IdA(p.ty[1]) \o " " \o IdB(p.ty[1]), "(#" \o IdA(p.ty[1]) \o ",#" \o IdB(p.ty[1]) \o ")", 0)
    [] p.k = "val"   -> IF base THEN RefArg("typed", p.ty[1], IdA(p.ty[1]))
                        ELSE Arg("val", "value", p.ty[1], "", "{" \o tab[ClassOf(p.ty[1])][1] \o "}", tab[ClassOf(p.ty[1])][2])
    [] p.k = "vals"  -> IF base THEN Arg(p.k, "typed", p.ty[1], "", "(#" \o IdA(p.ty[1]) \o ",#" \o IdB(p.ty[1]) \o ")", 0)
                        ELSE Arg("vals", "value", p.ty[1], "2", "({" \o tab[ClassOf(p.ty[1])][1] \o "},{" \o tab[ClassOf(p.ty[1])][1] \o "})",
                                 2 * tab[ClassOf(p.ty[1])][2])
    [] p.k = "value" -> Values(n)[1]
    [] p.k = "vec2"  -> Lit("vec2", VecS(Vec2(n)), VecE(Vec2(n)))
    [] p.k = "vec3"  -> Lit("vec3", VecS(Vec3(n)), VecE(Vec3(n)))
    [] p.k = "dir2"  -> Lit("dir2", Dir2(n)[1], Dir2(n)[2])
    [] p.k = "dir3"  -> Lit("dir3", Dir3(n)[1], Dir3(n)[2])
    [] p.k = "vec2s" -> Lit("vec2s", VecS(Vec2(n)) \o ";" \o VecS(Vec2(n + 1)), "(" \o VecE(Vec2(n)) \o "," \o VecE(Vec2(n + 1)) \o ")")
    [] p.k = "vec3s" -> Lit("vec3s", VecS(Vec3(n)) \o ";" \o VecS(Vec3(n + 1)), "(" \o VecE(Vec3(n)) \o "," \o VecE(Vec3(n + 1)) \o ")")

ArgsOf(c, base, tab) == [i \in DOMAIN Classes[c].par |-> SampleArg(Classes[c].par[i], i, base, tab)]
ArgVals(c, args) ==
  [a \in { Classes[c].par[i].a : i \in DOMAIN args } |->
     args[CHOOSE i \in DOMAIN args : Classes[c].par[i].a = a].e]
SumZ(q) == FoldLeft(LAMBDA x, y : x + y.z, 0, TLCEval(q))
(* text and number of instances of a value of every class, in terms of those of the classes it contains *)
Step(base, tab) == TLCEval([c \in CN |-> LET args == TLCEval(ArgsOf(c, base, tab)) IN
                     TLCEval(<< Show(c, TLCEval(Fill(c, TLCEval(ArgVals(c, args))))), 1 + SumZ(args) >>)])
Blank == [c \in CN |-> << "", 0 >>]
ValTab == Step(FALSE, Step(FALSE, Step(FALSE, Blank)))
ASSUME Step(FALSE, ValTab) = ValTab
BaseTab == Step(TRUE, Blank)
ValText(ty) == ValTab[ClassOf(ty)][1]
ValSize(ty) == ValTab[ClassOf(ty)][2]
Args0(c) == ArgsOf(c, FALSE, ValTab)
Sample(p, n) == SampleArg(p, n, FALSE, ValTab)
-----------------------------------------------------------------------------
(* the words of a "refs" argument, with a reference for every value *)
TwinIds(a) == IF a.s = "" THEN << >> ELSE
  LET ty == a.ty IN
  CASE a.s = "v" -> << IdB(ty) >>
    [] a.s = "v " \o IdA(ty) \o " v" -> << IdB(ty), IdA(ty), IdB(ty) >>
    [] OTHER -> << IdB(ty), IdB(ty), IdA(ty) >>
(* every argument the interface accepts for a parameter *)
Forms(p, n) ==
  CASE p.k \in {"ref"} -> [ j \in 1 .. (4 * Len(p.ty)) |->
           LET ty == p.ty[((j - 1) \div 4) + 1] IN
           CASE j % 4 = 1 -> Arg("ref", "value", ty, "", "{" \o ValText(ty) \o "}", ValSize(ty))
             [] j % 4 = 2 -> RefArg("typed", ty, IdB(ty))
             [] j % 4 = 3 -> RefArg("id", ty, IdA(ty))
             [] OTHER     -> RefArg("idor", ty, IdB(ty)) ]
    [] p.k = "tref" -> << [RefArg("typed", p.ty[1], IdA(p.ty[1])) EXCEPT !.k = "tref"], [RefArg("typed", p.ty[1], IdB(p.ty[1])) EXCEPT !.k = "tref"] >>
    [] p.k = "iref" -> [ j \in 1 .. (2 * Len(p.ty)) |-> LET ty == p.ty[((j - 1) \div 2) + 1] IN
           [RefArg("id", ty, IF j % 2 = 0 THEN IdA(ty) ELSE IdB(ty)) EXCEPT !.k = "iref"] ]
    [] p.k = "oiref" -> << [RefArg("id", p.ty[1], IdB(p.ty[1])) EXCEPT !.k = "oiref"], Lit("oiref", "", "$") >>
    [] p.k \in {"trefs", "irefs"} -> << Arg(p.k, "typed", p.ty[1], "", "()", 0),
           Arg(p.k, "typed", p.ty[1], IdB(p.ty[1]), "(#" \o IdB(p.ty[1]) \o ")", 0),
           Arg(p.k, "typed", p.ty[1], IdB(p.ty[1]) \o " " \o IdA(p.ty[1]) \o " " \o IdB(p.ty[1]),
               "(#" \o IdB(p.ty[1]) \o ",#" \o IdA(p.ty[1]) \o ",#" \o IdB(p.ty[1]) \o ")", 0),
           Arg(p.k, "typed", p.ty[1], IdB(p.ty[Len(p.ty)]) \o " " \o IdA(p.ty[1]), "(#" \o IdB(p.ty[Len(p.ty)]) \o ",#" \o IdA(p.ty[1]) \o ")", 0) >>
    [] p.k = "refs" -> LET ty == p.ty[1]
                           val == "{" \o ValText(ty) \o "}" IN
           << Arg("refs", "", ty, "", "()", 0), Arg("refs", "", ty, "v", "(" \o val \o ")", ValSize(ty)),
              Arg("refs", "", ty, "v " \o IdA(ty) \o " v", "(" \o val \o ",#" \o IdA(ty) \o "," \o val \o ")", 2 * ValSize(ty)),
              Arg("refs", "", ty, IdB(ty) \o " v " \o IdA(ty), "(#" \o IdB(ty) \o "," \o val \o ",#" \o IdA(ty) \o ")", ValSize(ty)) >>
    [] p.k = "val"  -> [ j \in DOMAIN p.ty |-> Arg("val", "value", p.ty[j], "", "{" \o ValText(p.ty[j]) \o "}", ValSize(p.ty[j])) ]
    [] p.k = "vals" -> [ j \in 1 .. (3 * Len(p.ty)) |-> LET ty == p.ty[((j - 1) \div 3) + 1]
                                                            val == "{" \o ValText(ty) \o "}"
                                                            m == << 0, 1, 3 >>[((j - 1) % 3) + 1] IN
           Arg("vals", "value", ty, ToString(m), "(" \o Join([x \in 1 .. m |-> val], ",") \o ")", m * ValSize(ty)) ]
    [] p.k \in {"enum", "oenum"} -> [ j \in DOMAIN EnumOf(p.en) |-> Lit(p.k, Item(p.en, n + j)[1], Item(p.en, n + j)[2]) ]
                                    \o (IF p.k = "oenum" THEN << Lit(p.k, "", "$") >> ELSE << >>)
    [] p.k = "str"  -> << Sample(p, n), Lit("str", "", "''"), Lit("str", "a b,(#1)", "'a b,(#1)'") >>
    [] p.k = "ostr" -> << Sample(p, n), Lit("ostr", "-", "$"), Lit("ostr", "", "''") >>
    [] p.k = "real" -> << Sample(p, n), Lit("real", "0", "0."), Lit("real", "-2.25", "-2.25") >>
    [] p.k = "int"  -> << Sample(p, n), Lit("int", "0", "0"), Lit("int", "-7", "-7") >>
    [] p.k = "ints" -> << Sample(p, n), Lit("ints", "", "()"), Lit("ints", "51 30 0 -5", "(51,30,0,-5)") >>
    [] p.k = "bool" -> << Sample(p, 0), Sample(p, 1) >>
    [] p.k = "value" -> Values(n)
    [] p.k \in {"vec2s", "vec3s"} -> << Sample(p, n), Lit(p.k, "", "()") >>
    [] OTHER        -> << Sample(p, n), Sample(p, n + 1) >>
-----------------------------------------------------------------------------
(* the machine *)
VARIABLES cls, ctor, calls, obj, stored
vars == << cls, ctor, calls, obj, stored >>

(* an attribute holds the text of its value, a list attribute that is appended to the texts of its items *)
Appended(c) == { Classes[c].sets[i].p.a : i \in { j \in DOMAIN Classes[c].sets : Classes[c].sets[j].mode = "add" } }
Start(c, args) ==
  /\ cls = c
  /\ ctor = args
  /\ calls = << >>
  /\ obj = [at |-> ArgVals(c, args), li |-> [a \in Appended(c) |-> << >>]]
  /\ stored = SumZ(args) + 1

Sets(s) == {s.p.a} \cup s.also
(* Calling a setter changes its attribute and nothing else. *)
Call(i, arg) ==
  LET s == Classes[cls].sets[i] IN
  /\ calls' = Append(calls, [fn |-> s.fn, i |-> i, arg |-> arg])
  /\ obj' = IF s.mode = "add" THEN [obj EXCEPT !.li[s.p.a] = Append(@, arg.e)]
            ELSE [obj EXCEPT !.at = [a \in DOMAIN @ \cup Sets(s) |-> IF a \in Sets(s) THEN arg.e ELSE @[a]]]
  /\ stored' = stored + arg.z
  /\ UNCHANGED << cls, ctor >>

(* the instance that results *)
ObjText(c, at, li) ==
  LET used == { a \in DOMAIN li : li[a] # << >> } IN
  Show(c, Fill(c, [a \in DOMAIN at \cup used |-> IF a \in used THEN "(" \o Join(li[a], ",") \o ")" ELSE at[a]]))
Expect == ObjText(cls, obj.at, obj.li)

(* The same history with a typed reference wherever an instance could be handed over in several *)
(* forms: it must lead to the same object, with that reference in the place of the instance.     *)
TwinArg(a) == CASE a.k = "ref" /\ a.f # "typed" -> RefArg("typed", a.ty, IdB(a.ty))
                [] a.k = "refs" -> LET w == TwinIds(a) IN [a EXCEPT !.s = Join(w, " "), !.e = "(" \o Join([i \in DOMAIN w |-> "#" \o w[i]], ",") \o ")", !.z = 0]
                [] OTHER -> a
Twin == LET tc == TLCEval([i \in DOMAIN ctor |-> TwinArg(ctor[i])])
            ts == TLCEval([i \in DOMAIN calls |-> [calls[i] EXCEPT !.arg = TwinArg(calls[i].arg)]])
            CallsTo(a, mode) == SelectSeq(ts, LAMBDA k : a \in Sets(Classes[cls].sets[k.i]) /\ Classes[cls].sets[k.i].mode = mode)
            LastSet(a) == LET q == CallsTo(a, "set") IN IF q = << >> THEN ArgVals(cls, tc)[a] ELSE q[Len(q)].arg.e
        IN  [ctor |-> tc, calls |-> ts,
             expect |-> ObjText(cls, TLCEval([a \in DOMAIN obj.at |-> LastSet(a)]),
                                TLCEval([a \in DOMAIN obj.li |-> LET q == CallsTo(a, "add") IN [j \in DOMAIN q |-> q[j].arg.e]])),
             stored |-> 1 + SumZ(tc) + SumZ([i \in DOMAIN ts |-> ts[i].arg])]
HasForms == (\E i \in DOMAIN ctor : TwinArg(ctor[i]) # ctor[i]) \/ (\E i \in DOMAIN calls : TwinArg(calls[i].arg) # calls[i].arg)
Case == [ty |-> Classes[cls].ty, ctor |-> ctor, calls |-> calls, expect |-> Expect, stored |-> stored,
         twin |-> IF HasForms THEN << Twin >> ELSE << >>]

(* What a history leaves in an attribute is decided by its own calls alone: the last argument *)
(* set, or all arguments appended, in order; nothing for the others.                         *)
CallsOf(a, mode) == SelectSeq(calls, LAMBDA k : a \in Sets(Classes[cls].sets[k.i]) /\ Classes[cls].sets[k.i].mode = mode)
LastWins == \A a \in DOMAIN obj.at :
              LET q == CallsOf(a, "set") IN
              obj.at[a] = IF q # << >> THEN q[Len(q)].arg.e ELSE ArgVals(cls, ctor)[a]
Appends  == \A a \in DOMAIN obj.li : obj.li[a] = [j \in 1 .. Len(CallsOf(a, "add")) |-> CallsOf(a, "add")[j].arg.e]
Frame    == DOMAIN obj.at = { Classes[cls].par[i].a : i \in DOMAIN Classes[cls].par }
                            \cup UNION { Sets(Classes[cls].sets[calls[i].i]) : i \in { j \in DOMAIN calls : Classes[cls].sets[calls[j].i].mode = "set" } }
Stores   == stored = 1 + SumZ(ctor) + SumZ([i \in DOMAIN calls |-> calls[i].arg])

(* the base model *)
BaseGuid(i) == IF i < 10 THEN "000000000000000000000" \o ToString(i)
               ELSE IF i < 100 THEN "00000000000000000000" \o ToString(i) ELSE "0000000000000000000" \o ToString(i)
BaseText(ty) == BaseTab[ClassOf(ty)][1]
=============================================================================
