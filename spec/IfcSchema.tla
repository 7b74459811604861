------------------------------- MODULE IfcSchema -------------------------------
(***************************************************************************)
(* The entities of the IFC schema that ifc_rs supports, written down from  *)
(* the buildingSMART documentation and the crate's public interface, as    *)
(* data.  Everything else in /verif/spec that talks about instances        *)
(* (composer, loader, verifier, extractor, ...) is driven by this table.   *)
(*                                                                         *)
(* An attribute is a record                                                *)
(*   n  name of the public field that exposes it                           *)
(*   k  kind of value (see IfcStep!Render)                                 *)
(*   o  TRUE iff it may be omitted ($) or derived ( * )                    *)
(*   e  items of the enumeration, for k = "enum"                           *)
(*   t  entity types a reference may point to; {} = any instance, existing *)
(*      or not, because the schema does not restrict the attribute         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

-----------------------------------------------------------------------------
(* enumerations: the keywords of the IFC schema, in declaration order *)

DimensionCount == <<
  "1", "2", "3" >>

GeometricProjection == <<
  ".GRAPH_VIEW.", ".SKETCH_VIEW.", ".MODEL_VIEW.", ".PLAN_VIEW.", ".REFLECTED_PLAN_VIEW.",
  ".SECTION_VIEW.", ".ELEVATION_VIEW.", ".USERDEFINED.", ".NOTDEFINED." >>

ProfileType == <<
  ".CURVE.", ".AREA." >>

RepresentationIdentifier == <<
  "'CoG'", "'Box'", "'Annotation'", "'Axis'", "'FootPrint'", "'Profile'", "'Surface'",
  "'Reference'", "'Body'", "'Body-FallBack'", "'Clearance'", "'Lighting'" >>

RepresentationType == <<
  "'Point'", "'PointCloud'", "'Curve'", "'Curve2D'", "'Curve3D'", "'Surface'", "'Surface2D'",
  "'Surface3D'", "'SectionedSurface'", "'FillArea'", "'Text'", "'AdvancedSurface'",
  "'GeometricSet'", "'GeometricCurveSet'", "'Annotation2D'", "'SurfaceModel'",
  "'Tessellation'", "'Segment'", "'SolidModel'", "'SweptSolid'", "'AdvancedSweptSolid'",
  "'Brep'", "'AdvancedBrep'", "'CSG'", "'Clipping'", "'BoundingBox'", "'SectionedSpine'",
  "'LightSource'", "'MappedRepresentation'" >>

DirectionSenseEnum == <<
  ".POSITIVE.", ".NEGATIVE." >>

LayerSetDirectionEnum == <<
  ".AXIS1.", ".AXIS2.", ".AXIS3." >>

AccessState == <<
  ".READWRITE.", ".READONLY.", ".LOCKED.", ".READWRITELOCKED.", ".READONLYLOCKED." >>

Role == <<
  ".SUPPLIER.", ".MANUFACTURER.", ".CONTRACTOR.", ".SUBCONTRACTOR.", ".ARCHITECT.",
  ".STRUCTURALENGINEER.", ".COSTENGINEER.", ".CLIENT.", ".BUILDINGOWNER.",
  ".BUILDINGOPERATOR.", ".MECHANICALENGINEER.", ".ELECTRICALENGINEER.", ".PROJECTMANAGER.",
  ".FACILITIESMANAGER.", ".CIVILENGINEER.", ".COMMISSIONINGENGINEER.", ".ENGINEER.", ".OWNER.",
  ".CONSULTANT.", ".CONSTRUCTIONMANAGER.", ".FIELDCONSTRUCTIONMANAGER.", ".RESELLER.",
  ".USERDEFINED." >>

ChangeAction == <<
  ".NOCHANGE.", ".MODIFIED.", ".ADDED.", ".DELETED.", ".MODIFIEDADDED.", ".MODIFIEDDELETED." >>

DoorOperationTypeEnum == <<
  ".SINGLE_SWING_LEFT.", ".SINGLE_SWING_RIGHT.", ".DOUBLE_DOOR_SINGLE_SWING.",
  ".DOUBLE_SWING_LEFT.", ".DOUBLE_SWING_RIGHT.", ".DOUBLE_DOOR_DOUBLE_SWING.",
  ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_LEFT.", ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_RIGHT.",
  ".SLIDING_TO_LEFT.", ".SLIDING_TO_RIGHT.", ".DOUBLE_DOOR_SLIDING.", ".FOLDING_TO_LEFT.",
  ".FOLDING_TO_RIGHT.", ".DOUBLE_DOOR_FOLDING.", ".REVOLVING.", ".ROLLINGUP.",
  ".SWING_FIXED_LEFT.", ".SWING_FIXED_RIGHT.", ".USERDEFINED.", ".NOTDEFINED." >>

DoorTypeEnum == <<
  ".DOOR.", ".GATE.", ".TRAPDOOR.", ".USERDEFINED.", ".NOTDEFINED." >>

OpeningElementTypeEnum == <<
  ".OPENING.", ".RECESS.", ".USERDEFINED.", ".NOTDEFINED." >>

RoofTypeEnum == <<
  ".FLAT_ROOF.", ".SHED_ROOF.", ".GABLE_ROOF.", ".HIP_ROOF.", ".HIPPED_GABLE_ROOF.",
  ".GAMBREL_ROOF.", ".MANSARD_ROOF.", ".BARREL_ROOF.", ".RAINBOW_ROOF.", ".BUTTERFLY_ROOF.",
  ".PAVILION_ROOF.", ".DOME_ROOF.", ".USERDEFINED.", ".NOTDEFINED." >>

ShadingDeviceTypeEnum == <<
  ".AWNING.", ".JALOUSIE.", ".SHUTTER.", ".USERDEFINED.", ".NOTDEFINED." >>

CompositionTypeEnum == <<
  ".COMPLEX.", ".ELEMENT.", ".PARTIAL." >>

SlabTypeEnum == <<
  ".FLOOR.", ".ROOF.", ".LANDING.", ".BASESLAB.", ".USERDEFINED.", ".NOTDEFINED." >>

SpaceTypeEnum == <<
  ".SPACE.", ".PARKING.", ".GFA.", ".INTERNAL.", ".EXTERNAL.", ".USERDEFINED.", ".NOTDEFINED." >>

WallTypeEnum == <<
  ".MOVABLE.", ".PARAPET.", ".PARTITIONING.", ".PLUMBINGWALL.", ".SHEAR.", ".SOLIDWALL.",
  ".STANDARD.", ".POLYGONAL.", ".ELEMENTEDWALL.", ".RETAININGWALL.", ".USERDEFINED.",
  ".NOTDEFINED." >>

WindowPartitioningTypeEnum == <<
  ".SINGLE_PANEL.", ".DOUBLE_PANEL_VERTICAL.", ".DOUBLE_PANEL_HORIZONTAL.",
  ".TRIPLE_PANEL_VERTICAL.", ".TRIPLE_PANEL_HORIZONTAL.", ".TRIPLE_PANEL_BOTTOM.",
  ".TRIPLE_PANEL_TOP.", ".TRIPLE_PANEL_LEFT.", ".TRIPLE_PANEL_RIGHT.", ".USERDEFINED.",
  ".NOTDEFINED." >>

WindowTypeEnum == <<
  ".WINDOW.", ".SKYLIGHT.", ".LIGHTDOME.", ".USERDEFINED.", ".NOTDEFINED." >>

ConversionUnitName == <<
  "'DEGREE'", "'INCH'", "'FOOT'", "'YARD'", "'MILE'", "'SQUARE INCH'", "'SQUARE FOOT'",
  "'SQUARE YARD'", "'ACRE'", "'SQUARE MILE'", "'CUBIC INCH'", "'CUBIC FOOT'", "'CUBIC YARD'",
  "'LITRE'", "'FLUID OUNCE UK'", "'FLUID OUNCE US'", "'PINT UK'", "'PINT US'", "'GALLON UK'",
  "'GALLON US'", "'OUNCE'", "'POUND'", "'TON UK'", "'TON US'", "'LBF'", "'KIP'", "'PSI'",
  "'KSI'", "'MINUTE'", "'HOUR'", "'DAY'", "'BTU'" >>

DerivedUnitEnum == <<
  ".ANGULARVELOCITYUNIT.", ".AREADENSITYUNIT.", ".COMPOUNDPLANEANGLEUNIT.",
  ".DYNAMICVISCOSITYUNIT.", ".HEATFLUXDENSITYUNIT.", ".INTEGERCOUNTRATEUNIT.",
  ".ISOTHERMALMOISTURECAPACITYUNIT.", ".KINEMATICVISCOSITYUNIT.", ".LINEARVELOCITYUNIT.",
  ".MASSDENSITYUNIT.", ".MASSFLOWRATEUNIT.", ".MOISTUREDIFFUSIVITYUNIT.",
  ".MOLECULARWEIGHTUNIT.", ".SPECIFICHEATCAPACITYUNIT.", ".THERMALADMITTANCEUNIT.",
  ".THERMALCONDUCTANCEUNIT.", ".THERMALRESISTANCEUNIT.", ".THERMALTRANSMITTANCEUNIT.",
  ".VAPORPERMEABILITYUNIT.", ".VOLUMETRICFLOWRATEUNIT.", ".ROTATIONALFREQUENCYUNIT.",
  ".TORQUEUNIT.", ".MOMENTOFINERTIAUNIT.", ".LINEARMOMENTUNIT.", ".LINEARFORCEUNIT.",
  ".PLANARFORCEUNIT.", ".MODULUSOFELASTICITYUNIT.", ".SHEARMODULUSUNIT.",
  ".LINEARSTIFFNESSUNIT.", ".ROTATIONALSTIFFNESSUNIT.", ".MODULUSOFSUBGRADEREACTIONUNIT.",
  ".ACCELERATIONUNIT.", ".CURVATUREUNIT.", ".IONCONCENTRATIONUNIT.",
  ".LUMINOUSINTENSITYDISTRIBUTIONUNIT.", ".MASSPERLENGTHUNIT.",
  ".MODULUSOFLINEARSUBGRADEREACTIONUNIT.", ".MODULUSOFROTATIONALSUBGRADEREACTIONUNIT.",
  ".PHUNIT.", ".ROTATIONALMASSUNIT.", ".SECTIONAREAINTEGRALUNIT.", ".SECTIONMODULUSUNIT.",
  ".SOUNDPOWERLEVELUNIT.", ".SOUNDPOWERUNIT.", ".SOUNDPRESSURELEVELUNIT.",
  ".SOUNDPRESSUREUNIT.", ".TEMPERATUREGRADIENTUNIT.", ".TEMPERATURERATEOFCHANGEUNIT.",
  ".THERMALEXPANSIONCOEFFICIENTUNIT.", ".WARPINGCONSTANTUNIT.", ".WARPINGMOMENTUNIT.",
  ".USERDEFINED." >>

IfcUnitName == <<
  ".AMPERE.", ".BECQUEREL.", ".CANDELA.", ".COULOMB.", ".CUBIC_METRE.", ".DEGREE_CELSIUS.",
  ".FARAD.", ".GRAM.", ".GRAY.", ".HENRY.", ".HERTZ.", ".JOULE.", ".KELVIN.", ".LUMEN.",
  ".LUX.", ".METRE.", ".MOLE.", ".NEWTON.", ".OHM.", ".PASCAL.", ".RADIAN.", ".SECOND.",
  ".SIEMENS.", ".SIEVERT.", ".SQUARE_METRE.", ".STERADIAN.", ".TESLA.", ".VOLT.", ".WATT.",
  ".WEBER." >>

IfcPrefix == <<
  ".EXA.", ".PETA.", ".TERA.", ".GIGA.", ".MEGA.", ".KILO.", ".DECA.", ".DECI.", ".CENTI.",
  ".MILLI.", ".MICRO.", ".NANO.", ".PICO.", ".FEMTO.", ".ATTO." >>

IfcUnitEnum == <<
  ".ABSORBEDDOSEUNIT.", ".AMOUNTOFSUBSTANCEUNIT.", ".AREAUNIT.", ".DOSEEQUIVALENTUNIT.",
  ".ELECTRICCAPACITANCEUNIT.", ".ELECTRICCHARGEUNIT.", ".ELECTRICCONDUCTANCEUNIT.",
  ".ELECTRICCURRENTUNIT.", ".ELECTRICRESISTANCEUNIT.", ".ELECTRICVOLTAGEUNIT.", ".ENERGYUNIT.",
  ".FORCEUNIT.", ".ILLUMINANCEUNIT.", ".INDUCTANCEUNIT.", ".LENGTHUNIT.", ".LUMINOUSFLUXUNIT.",
  ".LUMINOUSINTENSITYUNIT.", ".MAGNETICFLUXDENSITYUNIT.", ".MAGNETICFLUXUNIT.", ".MASSUNIT.",
  ".PLANEANGLEUNIT.", ".POWERUNIT.", ".PRESSUREUNIT.", ".RADIOACTIVITYUNIT.",
  ".SOLIDANGLEUNIT.", ".THERMODYNAMICTEMPERATUREUNIT.", ".TIMEUNIT.", ".VOLUMEUNIT.",
  ".USERDEFINED." >>
Bools == <<".TRUE.", ".FALSE.", ".UNKNOWN.">>

-----------------------------------------------------------------------------
(* attribute constructors; a leading O makes the attribute optional *)
At(n, k, o, e, t) == [n |-> n, k |-> k, o |-> o, e |-> e, t |-> t]

G(n)      == At(n, "guid", FALSE, <<>>, {})
S(n)      == At(n, "str", FALSE, <<>>, {})
OS(n)     == At(n, "str", TRUE, <<>>, {})
OSL(n)    == At(n, "strlist", TRUE, <<>>, {})
I(n)      == At(n, "int", FALSE, <<>>, {})
OI(n)     == At(n, "int", TRUE, <<>>, {})
OIL(n)    == At(n, "intlist", TRUE, <<>>, {})
R(n)      == At(n, "real", FALSE, <<>>, {})
OR(n)     == At(n, "real", TRUE, <<>>, {})
B(n)      == At(n, "bool", FALSE, Bools, {})
OB(n)     == At(n, "bool", TRUE, Bools, {})
T(n)      == At(n, "time", FALSE, <<>>, {})
OT(n)     == At(n, "time", TRUE, <<>>, {})
E(n, e)   == At(n, "enum", FALSE, e, {})
OE(n, e)  == At(n, "enum", TRUE, e, {})
D(n)      == At(n, "dim", FALSE, DimensionCount, {})
OD(n)     == At(n, "dim", TRUE, DimensionCount, {})
F(n, t)   == At(n, "ref", FALSE, <<>>, t)
OF(n, t)  == At(n, "ref", TRUE, <<>>, t)
FL(n, t)  == At(n, "reflist", FALSE, <<>>, t)
OFL(n, t) == At(n, "reflist", TRUE, <<>>, t)
C2(n)     == At(n, "vec2", FALSE, <<>>, {})
C3(n)     == At(n, "vec3", FALSE, <<>>, {})
L2(n)     == At(n, "vec2list", FALSE, <<>>, {})
L3(n)     == At(n, "vec3list", FALSE, <<>>, {})
V(n)      == At(n, "value", FALSE, <<>>, {})
PA(n)     == At(n, "angle", FALSE, <<>>, {"PlaneAngleMeasure"})     \* a value, never an instance of its own

-----------------------------------------------------------------------------
(* base entities *)
Root           == << G("global_id"), OF("owner_history", {"OwnerHistory"}), OS("name"), OS("description") >>
Object         == Root \o << OS("object_type") >>
Product        == Object \o << OF("object_placement", {"Axis3D", "Point3D", "LocalPlacement"}),
                               OF("representation", {"ProductDefinitionShape"}) >>
Element        == Product \o << OS("tag") >>
SpatialElement == Product \o << OS("long_name") >>
SpatialStruct  == SpatialElement \o << OE("composition_type", CompositionTypeEnum) >>
Context        == Root \o << OS("object_type"), OS("long_name"), OS("phase"),
                             FL("representation_context", {"GeometricRepresentationContext"}),
                             OF("units_in_context", {"UnitAssigment"}) >>
TypeObject     == Root \o << OF("applicable_occurence", {}), OFL("has_property_sets", {}) >>
TypeProduct    == TypeObject \o << OFL("representation_maps", {"RepresentationMap"}), OS("tag") >>
ElementType    == TypeProduct \o << OS("element_type") >>
RelAssociates  == Root \o << FL("related_objects", {}) >>
NamedUnit      == << OF("dimensions", {}), OE("unit_type", IfcUnitEnum) >>
Transform3D    == << OF("axis_x", {"Direction3D"}), OF("axis_y", {"Direction3D"}),
                     F("local_origin", {"Point3D"}), OR("scale"), OF("axis_z", {"Direction3D"}) >>

Addresses      == {"TelecomAddress", "PostalAddress"}
Spatial        == {"Site", "Building", "Storey"}
AxisPlacements == {"Axis2D", "Axis3D"}
Directions     == {"Direction2D", "Direction3D"}
Points         == {"Point2D", "Point3D"}

Ent(ty, kw, f) == [ty |-> ty, kw |-> kw, alias |-> <<>>, f |-> f]
EntA(ty, kw, a, f) == [ty |-> ty, kw |-> kw, alias |-> <<a>>, f |-> f]

Entities == <<
  \* --- actors, ownership, project -------------------------------------------
  Ent("Organization", "IFCORGANIZATION",
      << OS("id"), S("name"), OS("description"), OFL("roles", {"ActorRole"}), OFL("addresses", Addresses) >>),
  Ent("Application", "IFCAPPLICATION",
      << F("application_developer", {"Organization"}), S("version"), S("application_full_name"),
         S("application_identifier") >>),
  Ent("ActorRole", "IFCACTORROLE", << E("role", Role), OS("user_defined_role"), OS("description") >>),
  Ent("TelecomAddress", "IFCTELECOMADDRESS",
      << OS("purpose"), OS("description"), OS("user_defined_purpose"), OSL("telephone_numbers"),
         OSL("facsimile_numbers"), OS("pager_number"), OSL("email_addresses"), OS("homepage_url") >>),
  Ent("PostalAddress", "IFCPOSTALADDRESS",
      << OS("purpose"), OS("description"), OS("user_defined_purpose"), OS("internal_location"),
         OSL("address_lines"), OS("postal_box"), OSL("town"), OS("region"), OS("postal_code"), OS("country") >>),
  Ent("Person", "IFCPERSON",
      << OS("id"), OS("family_name"), OS("given_name"), OSL("middle_names"), OSL("prefix_titles"),
         OSL("suffix_titles"), OFL("roles", {"ActorRole"}), OFL("addresses", Addresses) >>),
  Ent("PersonAndOrganization", "IFCPERSONANDORGANIZATION",
      << F("the_person", {"Person"}), F("the_organization", {"Organization"}), OFL("roles", {"ActorRole"}) >>),
  Ent("OwnerHistory", "IFCOWNERHISTORY",
      << OF("owning_user", {"PersonAndOrganization"}), OF("owning_application", {"Application"}),
         OE("state", AccessState), E("change_action", ChangeAction), OT("last_modified_date"),
         OF("last_modifying_user", {"PersonAndOrganization"}),
         OF("last_modifying_application", {"Application"}), T("creation_date") >>),
  Ent("Project", "IFCPROJECT", Context),
  \* --- spatial structure ----------------------------------------------------
  Ent("Site", "IFCSITE", SpatialStruct \o
      << OIL("ref_latitude"), OIL("ref_longitude"), OR("ref_elevation"), OS("land_title_number"),
         OF("site_address", {"PostalAddress"}) >>),
  Ent("Building", "IFCBUILDING", SpatialStruct \o
      << OR("elevation_of_ref_height"), OR("elevation_of_terrain"), OF("building_address", {"PostalAddress"}) >>),
  Ent("Storey", "IFCBUILDINGSTOREY", SpatialStruct \o << OR("elevation") >>),
  Ent("Space", "IFCSPACE", SpatialStruct \o
      << OE("predefined_type", SpaceTypeEnum), OR("elevation_with_flooring") >>),
  \* --- elements ---------------------------------------------------------------
  EntA("Wall", "IFCWALL", "IFCWALLSTANDARDCASE", Element \o << OF("predefined_type", {"WallType"}) >>),
  EntA("Slab", "IFCSLAB", "IFCSLABSTANDARDCASE", Element \o << OE("predefined_type", SlabTypeEnum) >>),
  Ent("Roof", "IFCROOF", Element \o << OE("predefined_type", RoofTypeEnum) >>),
  Ent("ShadingDevice", "IFCSHADINGDEVICE", Element \o << OE("predefined_type", ShadingDeviceTypeEnum) >>),
  Ent("OpeningElement", "IFCOPENINGELEMENT", Element \o << OE("predefined_type", OpeningElementTypeEnum) >>),
  EntA("Door", "IFCDOOR", "IFCDOORSTANDARDCASE", Element \o
      << OR("overall_height"), OR("overall_width"), OE("predefined_type", DoorTypeEnum),
         OE("operation_type", DoorOperationTypeEnum), OS("user_defining_operation_type") >>),
  EntA("Window", "IFCWINDOW", "IFCWINDOWSTANDARDCASE", Element \o
      << OR("overall_height"), OR("overall_width"), OE("predefined_type", WindowTypeEnum),
         OE("partitioning_type", WindowPartitioningTypeEnum), OS("user_defining_partitioning_type") >>),
  \* --- element types ------------------------------------------------------------
  Ent("WallType", "IFCWALLTYPE", ElementType \o << E("predefined_type", WallTypeEnum) >>),
  Ent("SlabType", "IFCSLABTYPE", ElementType \o << E("predefined_type", SlabTypeEnum) >>),
  Ent("RoofType", "IFCROOFTYPE", ElementType \o << E("predefined_type", RoofTypeEnum) >>),
  Ent("ShadingDeviceType", "IFCSHADINGDEVICETYPE", ElementType \o << E("predefined_type", ShadingDeviceTypeEnum) >>),
  Ent("SpaceType", "IFCSPACETYPE", ElementType \o << E("predefined_type", SpaceTypeEnum), OS("long_name") >>),
  Ent("DoorType", "IFCDOORTYPE", ElementType \o
      << E("predefined_type", DoorTypeEnum), E("operation_type", DoorOperationTypeEnum),
         OB("parameter_takes_precedence"), OS("user_defined_partitioning_type") >>),
  Ent("WindowType", "IFCWINDOWTYPE", ElementType \o
      << E("predefined_type", WindowTypeEnum), E("partitioning_type", WindowPartitioningTypeEnum),
         OB("parameter_takes_precedence"), OS("user_defined_partitioning_type") >>),
  \* --- relations ----------------------------------------------------------------
  Ent("RelAggregates", "IFCRELAGGREGATES", Root \o
      << F("relating_object", {"Project"} \cup Spatial), FL("related_objects", Spatial \cup {"Space"}) >>),
  Ent("RelAssociatesMaterial", "IFCRELASSOCIATESMATERIAL", RelAssociates \o
      << F("relating_material", {"MaterialConstituentSet", "MaterialLayerSetUsage", "MaterialLayerSet", "Material"}) >>),
  Ent("RelContainedInSpatialStructure", "IFCRELCONTAINEDINSPATIALSTRUCTURE", Root \o
      << FL("related_elements", Spatial \cup {"OpeningElement", "Slab", "Roof", "Wall", "Window", "Door", "ShadingDevice"}),
         F("relating_structure", Spatial \cup {"OpeningElement", "Slab", "Roof", "Wall", "Window", "Door"}) >>),
  Ent("RelDeclares", "IFCRELDECLARES", Root \o
      << F("relating_context", {"Project"}), FL("related_definitions", {}) >>),
  Ent("RelDefinesByProperties", "IFCRELDEFINESBYPROPERTIES", Root \o
      << FL("related_objects", {}), F("relating_property_definition", {}) >>),
  Ent("RelDefinesByType", "IFCRELDEFINESBYTYPE", Root \o
      << FL("related_objects", {}), F("relating_type", {}) >>),
  Ent("RelFillsElement", "IFCRELFILLSELEMENT", Root \o
      << F("relating_opening_element", {"OpeningElement"}),
         F("related_building_element", {"Building", "OpeningElement", "Slab", "Wall", "Window", "Door"}) >>),
  Ent("RelVoidsElement", "IFCRELVOIDSELEMENT", Root \o
      << F("relating_building_element", {"Building", "OpeningElement", "Slab", "Wall", "Window"}),
         F("related_opening_element", {"OpeningElement"}) >>),
  Ent("MappedItem", "IFCMAPPEDITEM",
      << F("source", {"RepresentationMap"}),
         F("target", {"CartesianTransformationOperator3DnonUniform", "CartesianTransformationOperator3D"}) >>),
  Ent("RepresentationMap", "IFCREPRESENTATIONMAP",
      << F("origin", {"Axis3D"}), F("representation", {"ShapeRepresentation"}) >>),
  \* --- geometry -------------------------------------------------------------------
  Ent("ArbitraryClosedProfileDef", "IFCARBITRARYCLOSEDPROFILEDEF",
      << E("profile_type", ProfileType), OS("profile_name"), F("outer_curve", {"IndexedPolyCurve", "PolyLine"}) >>),
  Ent("RectangleProfileDef", "IFCRECTANGLEPROFILEDEF",
      << E("profile_type", ProfileType), OS("profile_name"), OF("position", AxisPlacements), R("x_dim"), R("y_dim") >>),
  Ent("Axis2D", "IFCAXIS2PLACEMENT2D", << F("location", {"Point2D"}), OF("local_x", {"Direction2D"}) >>),
  Ent("Axis3D", "IFCAXIS2PLACEMENT3D",
      << F("location", {"Point3D"}), OF("local_z", {"Direction3D"}), OF("local_x", {"Direction3D"}) >>),
  Ent("Direction2D", "IFCDIRECTION", << C2("0") >>),
  Ent("Direction3D", "IFCDIRECTION", << C3("0") >>),
  Ent("Point2D", "IFCCARTESIANPOINT", << C2("0") >>),
  Ent("Point3D", "IFCCARTESIANPOINT", << C3("0") >>),
  Ent("PointList2D", "IFCCARTESIANPOINTLIST2D", << L2("coord_list"), OSL("tag_list") >>),
  Ent("PointList3D", "IFCCARTESIANPOINTLIST3D", << L3("coord_list"), OSL("tag_list") >>),
  Ent("IndexedPolyCurve", "IFCINDEXEDPOLYCURVE",
      << F("points", {"PointList2D", "PointList3D"}), OS("segments"), OB("self_intersect") >>),
  Ent("PolyLine", "IFCPOLYLINE", << FL("points", Points) >>),
  Ent("ExtrudedAreaSolid", "IFCEXTRUDEDAREASOLID",
      << F("swept_area", {"RectangleProfileDef", "ArbitraryClosedProfileDef"}), OF("position", {"Axis3D"}),
         F("extruded_direction", {"Direction3D"}), R("depth") >>),
  Ent("ProductDefinitionShape", "IFCPRODUCTDEFINITIONSHAPE",
      << OS("name"), OS("description"), FL("representations", {"ShapeRepresentation"}) >>),
  Ent("GeometricRepresentationContext", "IFCGEOMETRICREPRESENTATIONCONTEXT",
      << OE("context_identifier", RepresentationIdentifier), OS("context_type"), D("coord_space_dimension"),
         OR("precision"), F("world_coord_system", AxisPlacements), OF("true_north", Directions) >>),
  Ent("GeometricRepresentationSubContext", "IFCGEOMETRICREPRESENTATIONSUBCONTEXT",
      << OE("context_identifier", RepresentationIdentifier), OS("context_type"), OD("coord_space_dimension"),
         OR("precision"), OF("world_coord_system", AxisPlacements), OF("true_north", AxisPlacements),
         F("parent_context", {"GeometricRepresentationContext"}), OR("target_scale"),
         E("target_view", GeometricProjection), OS("user_defined_target_view") >>),
  Ent("ShapeRepresentation", "IFCSHAPEREPRESENTATION",
      << F("context_of_items", {"GeometricRepresentationSubContext", "GeometricRepresentationContext"}),
         OE("representation_identifier", RepresentationIdentifier),
         OE("representation_type", RepresentationType),
         FL("items", {"ExtrudedAreaSolid", "PolyLine", "MappedItem"}) >>),
  Ent("LocalPlacement", "IFCLOCALPLACEMENT",
      << OF("placement_rel_to", {"LocalPlacement"}), F("relative_placement", AxisPlacements) >>),
  Ent("CartesianTransformationOperator3D", "IFCCARTESIANTRANSFORMATIONOPERATOR3D", Transform3D),
  Ent("CartesianTransformationOperator3DnonUniform", "IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM",
      Transform3D \o << OR("scale_y"), OR("scale_z") >>),
  \* --- materials --------------------------------------------------------------------
  Ent("Material", "IFCMATERIAL", << OS("material"), OS("description"), OS("category") >>),
  Ent("MaterialConstituent", "IFCMATERIALCONSTITUENT",
      << OS("name"), OS("description"), F("material", {"Material"}), OR("fraction"), OS("category") >>),
  Ent("MaterialConstituentSet", "IFCMATERIALCONSTITUENTSET",
      << OS("name"), OS("description"), FL("material_constituents", {"MaterialConstituent"}) >>),
  Ent("MaterialLayer", "IFCMATERIALLAYER",
      << OF("material", {"Material"}), R("layer_thickness"), B("is_ventilated"), OS("name"), OS("description"),
         OS("category"), OI("priority") >>),
  Ent("MaterialLayerSet", "IFCMATERIALLAYERSET",
      << FL("material_layers", {"MaterialLayer"}), OS("layer_set_name"), OS("description") >>),
  Ent("MaterialLayerSetUsage", "IFCMATERIALLAYERSETUSAGE",
      << F("spatial_element_structure", {"MaterialLayerSet"}), E("layer_set_direction", LayerSetDirectionEnum),
         E("direction_sense", DirectionSenseEnum), R("offset_from_reference_line"), OR("reference_extent") >>),
  \* --- properties ---------------------------------------------------------------------
  Ent("PropertySet", "IFCPROPERTYSET", Root \o << FL("properties", {"PropertySingleValue"}) >>),
  Ent("PropertySingleValue", "IFCPROPERTYSINGLEVALUE",
      << OS("name"), OS("description"), V("value"), OF("unit", {}) >>),
  Ent("MaterialProperties", "IFCMATERIALPROPERTIES",
      << OS("name"), OS("description"), FL("properties", {}), F("material", {"Material"}) >>),
  \* --- units ----------------------------------------------------------------------------
  Ent("UnitAssigment", "IFCUNITASSIGNMENT",
      << FL("units", {"SiUnit", "ConversionBasedUnit", "DerivedUnit", "MonetaryUnit"}) >>),
  Ent("ConversionBasedUnit", "IFCCONVERSIONBASEDUNIT", NamedUnit \o
      << OE("name", ConversionUnitName), OF("conversion_factor", {"MeasureWithUnit"}) >>),
  Ent("SiUnit", "IFCSIUNIT", NamedUnit \o << OE("prefix", IfcPrefix), E("name", IfcUnitName) >>),
  Ent("DimensionalExponents", "IFCDIMENSIONALEXPONENTS",
      << I("length"), I("mass"), I("time"), I("electric_current"),
         I("thermodynamic_temperature"), I("amount_of_substance"),
         I("luminouse_intensity") >>),
  Ent("MeasureWithUnit", "IFCMEASUREWITHUNIT", << PA("value"), F("unit", {"SiUnit"}) >>),
  Ent("DerivedUnit", "IFCDERIVEDUNIT",
      << FL("elements", {"DerivedUnitElement"}), E("unit_type", DerivedUnitEnum), OS("user_defined_type") >>),
  Ent("DerivedUnitElement", "IFCDERIVEDUNITELEMENT", << F("unit", {"SiUnit"}), I("exponent") >>),
  Ent("MonetaryUnit", "IFCMONETARYUNIT", << S("currency") >>)
>>

TypeNames == { Entities[i].ty : i \in DOMAIN Entities }
EntOf(ty) == CHOOSE i \in DOMAIN Entities : Entities[i].ty = ty
AllTypes  == TypeNames \cup {"Dummy"}

IsRef(a)  == a.k \in {"ref", "reflist", "angle"}

(* The schema is well-formed: names are unique per entity, every target exists. *)
ASSUME \A i \in DOMAIN Entities :
         LET f == Entities[i].f IN
         /\ \A a, b \in DOMAIN f : f[a].n = f[b].n => a = b
         /\ \A a \in DOMAIN f : f[a].t \subseteq (TypeNames \cup {"PlaneAngleMeasure"})
ASSUME Cardinality(TypeNames) = Len(Entities)
=============================================================================
