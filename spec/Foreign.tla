-------------------------------- MODULE Foreign --------------------------------
(***************************************************************************)
(* Entities of IFC which the library does not support, with the attributes *)
(* of supported ones: neither a look-alike keyword nor fitting attributes  *)
(* make an instance a supported one.                                       *)
(***************************************************************************)
EXTENDS Alts, Json

Relatives == << "STANDARDCASE", "ELEMENTEDCASE", "TYPE", "STYLE", "2D", "X", "_", "WITHVOIDS", "TAPERED", "RELATIONSHIP" >>
Others == <<
  "IFCOPENINGSTANDARDCASE", "IFCWINDOWSTANDARDCASE", "IFCBEAM", "IFCCOLUMN", "IFCMEMBER", "IFCPLATE", "IFCCURTAINWALL", "IFCSTAIR", "IFCRAMP",
  "IFCFOOTING", "IFCPILE", "IFCCOVERING", "IFCRAILING", "IFCFURNISHINGELEMENT", "IFCBUILDINGELEMENTPROXY", "IFCVOIDINGFEATURE", "IFCFACILITY",
  "IFCBRIDGE", "IFCSPATIALZONE", "IFCEXTERNALSPATIALELEMENT", "IFCPROJECTLIBRARY", "IFCWINDOWSTYLE", "IFCDOORSTYLE", "IFCCOVERINGTYPE", "IFCBEAMTYPE",
  "IFCRELNESTS", "IFCRELASSIGNSTOGROUP", "IFCRELDECOMPOSES", "IFCRELCONNECTSELEMENTS", "IFCRELASSOCIATESCLASSIFICATION", "IFCRELASSOCIATESDOCUMENT",
  "IFCRELDEFINESBYTEMPLATE", "IFCRELDEFINESBYOBJECT", "IFCRELREFERENCEDINSPATIALSTRUCTURE", "IFCRELSPACEBOUNDARY", "IFCRELPROJECTSELEMENT",
  "IFCRELCOVERSBLDGELEMENTS", "IFCARBITRARYOPENPROFILEDEF", "IFCARBITRARYPROFILEDEFWITHVOIDS", "IFCRECTANGLEHOLLOWPROFILEDEF",
  "IFCROUNDEDRECTANGLEPROFILEDEF", "IFCCIRCLEPROFILEDEF", "IFCEXTRUDEDAREASOLIDTAPERED", "IFCREVOLVEDAREASOLID", "IFCSURFACECURVESWEPTAREASOLID",
  "IFCTRIMMEDCURVE", "IFCCOMPOSITECURVE", "IFCPOLYLOOP", "IFCVERTEXPOINT", "IFCVECTOR", "IFCAXIS1PLACEMENT", "IFCAXIS2PLACEMENTLINEAR", "IFCGRIDPLACEMENT",
  "IFCLINEARPLACEMENT", "IFCPLACEMENT", "IFCPRODUCTREPRESENTATION", "IFCMATERIALDEFINITIONREPRESENTATION", "IFCSHAPEMODEL", "IFCTOPOLOGYREPRESENTATION",
  "IFCSTYLEDREPRESENTATION", "IFCREPRESENTATION", "IFCREPRESENTATIONCONTEXT", "IFCSTYLEDITEM", "IFCMATERIALLIST", "IFCMATERIALPROFILE",
  "IFCMATERIALLAYERWITHOFFSETS", "IFCMATERIALPROFILESET", "IFCMATERIALPROFILESETUSAGE", "IFCPROPERTYENUMERATEDVALUE", "IFCPROPERTYBOUNDEDVALUE",
  "IFCPROPERTYREFERENCEVALUE", "IFCELEMENTQUANTITY", "IFCPROPERTYSETTEMPLATE", "IFCCONVERSIONBASEDUNITWITHOFFSET", "IFCCONTEXTDEPENDENTUNIT",
  "IFCCARTESIANTRANSFORMATIONOPERATOR2D", "IFCCARTESIANTRANSFORMATIONOPERATOR2DNONUNIFORM", "IFCCARTESIANPOINTLIST", "IFCINDEXEDPOLYGONALFACE",
  "IFCPERSONANDORGANISATION", "IFCADDRESS", "IFCACTOR", "IFCOWNERHISTORIES", "IFCAPPLICATIONS", "IFCBUILDINGSTORY", "IFCUNIT", "IFCNAMEDUNIT" >>

Known == { Entities[i].kw : i \in DOMAIN Entities } \cup UNION { { Entities[i].alias[j] : j \in DOMAIN Entities[i].alias } : i \in DOMAIN Entities }

VARIABLES ent, kw
vars == << ent, kw >>
Init == ent \in DOMAIN Entities /\ kw = ""
Next == /\ kw = ""
        /\ UNCHANGED ent
        /\ kw' \in ({ Others[i] : i \in DOMAIN Others } \cup { Entities[ent].kw \o Relatives[i] : i \in DOMAIN Relatives }
                   \cup { SubSeq(Entities[ent].kw, 4, Len(Entities[ent].kw)), SubSeq(Entities[ent].kw, 1, Len(Entities[ent].kw) - 1) }) \ Known
Spec == Init /\ [][Next]_vars

Base == [j \in DOMAIN Entities[ent].f |-> Alts(Entities[ent].f[j], j, ent, 1)[1]]
Emit == kw # "" => PrintT("@@" \o ToJson([ty |-> Entities[ent].ty, kw |-> kw, text |-> InstText(kw, Base)]))
=============================================================================
