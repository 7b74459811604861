// generated by tools/genenum.py from spec/EnumApi.tla; do not edit
use ifc_rs::prelude::*;

pub fn table() -> Vec<(&'static str, Vec<(&'static str, String)>)> {
    vec![
        ("AccessState", vec![
            ("ReadWrite", AccessState::ReadWrite.to_string()),
            ("ReadOnly", AccessState::ReadOnly.to_string()),
            ("Locked", AccessState::Locked.to_string()),
            ("ReadWriteLocked", AccessState::ReadWriteLocked.to_string()),
            ("ReadOnlyLocked", AccessState::ReadOnlyLocked.to_string()),
        ]),
        ("ChangeAction", vec![
            ("NoChange", ChangeAction::NoChange.to_string()),
            ("Modified", ChangeAction::Modified.to_string()),
            ("Added", ChangeAction::Added.to_string()),
            ("Deleted", ChangeAction::Deleted.to_string()),
            ("ModifiedAdded", ChangeAction::ModifiedAdded.to_string()),
            ("ModifiedDeleted", ChangeAction::ModifiedDeleted.to_string()),
        ]),
        ("CompositionTypeEnum", vec![
            ("Comples", CompositionTypeEnum::Comples.to_string()),
            ("Element", CompositionTypeEnum::Element.to_string()),
            ("Partial", CompositionTypeEnum::Partial.to_string()),
        ]),
        ("DerivedUnitEnum", vec![
            ("ANGULARVELOCITYUNIT", DerivedUnitEnum::ANGULARVELOCITYUNIT.to_string()),
            ("AREADENSITYUNIT", DerivedUnitEnum::AREADENSITYUNIT.to_string()),
            ("COMPOUNDPLANEANGLEUNIT", DerivedUnitEnum::COMPOUNDPLANEANGLEUNIT.to_string()),
            ("DYNAMICVISCOSITYUNIT", DerivedUnitEnum::DYNAMICVISCOSITYUNIT.to_string()),
            ("HEATFLUXDENSITYUNIT", DerivedUnitEnum::HEATFLUXDENSITYUNIT.to_string()),
            ("INTEGERCOUNTRATEUNIT", DerivedUnitEnum::INTEGERCOUNTRATEUNIT.to_string()),
            ("ISOTHERMALMOISTURECAPACITYUNIT", DerivedUnitEnum::ISOTHERMALMOISTURECAPACITYUNIT.to_string()),
            ("KINEMATICVISCOSITYUNIT", DerivedUnitEnum::KINEMATICVISCOSITYUNIT.to_string()),
            ("LINEARVELOCITYUNIT", DerivedUnitEnum::LINEARVELOCITYUNIT.to_string()),
            ("MASSDENSITYUNIT", DerivedUnitEnum::MASSDENSITYUNIT.to_string()),
            ("MASSFLOWRATEUNIT", DerivedUnitEnum::MASSFLOWRATEUNIT.to_string()),
            ("MOISTUREDIFFUSIVITYUNIT", DerivedUnitEnum::MOISTUREDIFFUSIVITYUNIT.to_string()),
            ("MOLECULARWEIGHTUNIT", DerivedUnitEnum::MOLECULARWEIGHTUNIT.to_string()),
            ("SPECIFICHEATCAPACITYUNIT", DerivedUnitEnum::SPECIFICHEATCAPACITYUNIT.to_string()),
            ("THERMALADMITTANCEUNIT", DerivedUnitEnum::THERMALADMITTANCEUNIT.to_string()),
            ("THERMALCONDUCTANCEUNIT", DerivedUnitEnum::THERMALCONDUCTANCEUNIT.to_string()),
            ("THERMALRESISTANCEUNIT", DerivedUnitEnum::THERMALRESISTANCEUNIT.to_string()),
            ("THERMALTRANSMITTANCEUNIT", DerivedUnitEnum::THERMALTRANSMITTANCEUNIT.to_string()),
            ("VAPORPERMEABILITYUNIT", DerivedUnitEnum::VAPORPERMEABILITYUNIT.to_string()),
            ("VOLUMETRICFLOWRATEUNIT", DerivedUnitEnum::VOLUMETRICFLOWRATEUNIT.to_string()),
            ("ROTATIONALFREQUENCYUNIT", DerivedUnitEnum::ROTATIONALFREQUENCYUNIT.to_string()),
            ("TORQUEUNIT", DerivedUnitEnum::TORQUEUNIT.to_string()),
            ("MOMENTOFINERTIAUNIT", DerivedUnitEnum::MOMENTOFINERTIAUNIT.to_string()),
            ("LINEARMOMENTUNIT", DerivedUnitEnum::LINEARMOMENTUNIT.to_string()),
            ("LINEARFORCEUNIT", DerivedUnitEnum::LINEARFORCEUNIT.to_string()),
            ("PLANARFORCEUNIT", DerivedUnitEnum::PLANARFORCEUNIT.to_string()),
            ("MODULUSOFELASTICITYUNIT", DerivedUnitEnum::MODULUSOFELASTICITYUNIT.to_string()),
            ("SHEARMODULUSUNIT", DerivedUnitEnum::SHEARMODULUSUNIT.to_string()),
            ("LINEARSTIFFNESSUNIT", DerivedUnitEnum::LINEARSTIFFNESSUNIT.to_string()),
            ("ROTATIONALSTIFFNESSUNIT", DerivedUnitEnum::ROTATIONALSTIFFNESSUNIT.to_string()),
            ("MODULUSOFSUBGRADEREACTIONUNIT", DerivedUnitEnum::MODULUSOFSUBGRADEREACTIONUNIT.to_string()),
            ("ACCELERATIONUNIT", DerivedUnitEnum::ACCELERATIONUNIT.to_string()),
            ("CURVATUREUNIT", DerivedUnitEnum::CURVATUREUNIT.to_string()),
            ("IONCONCENTRATIONUNIT", DerivedUnitEnum::IONCONCENTRATIONUNIT.to_string()),
            ("LUMINOUSINTENSITYDISTRIBUTIONUNIT", DerivedUnitEnum::LUMINOUSINTENSITYDISTRIBUTIONUNIT.to_string()),
            ("MASSPERLENGTHUNIT", DerivedUnitEnum::MASSPERLENGTHUNIT.to_string()),
            ("MODULUSOFLINEARSUBGRADEREACTIONUNIT", DerivedUnitEnum::MODULUSOFLINEARSUBGRADEREACTIONUNIT.to_string()),
            ("MODULUSOFROTATIONALSUBGRADEREACTIONUNIT", DerivedUnitEnum::MODULUSOFROTATIONALSUBGRADEREACTIONUNIT.to_string()),
            ("PHUNIT", DerivedUnitEnum::PHUNIT.to_string()),
            ("ROTATIONALMASSUNIT", DerivedUnitEnum::ROTATIONALMASSUNIT.to_string()),
            ("SECTIONAREAINTEGRALUNIT", DerivedUnitEnum::SECTIONAREAINTEGRALUNIT.to_string()),
            ("SECTIONMODULUSUNIT", DerivedUnitEnum::SECTIONMODULUSUNIT.to_string()),
            ("SOUNDPOWERLEVELUNIT", DerivedUnitEnum::SOUNDPOWERLEVELUNIT.to_string()),
            ("SOUNDPOWERUNIT", DerivedUnitEnum::SOUNDPOWERUNIT.to_string()),
            ("SOUNDPRESSURELEVELUNIT", DerivedUnitEnum::SOUNDPRESSURELEVELUNIT.to_string()),
            ("SOUNDPRESSUREUNIT", DerivedUnitEnum::SOUNDPRESSUREUNIT.to_string()),
            ("TEMPERATUREGRADIENTUNIT", DerivedUnitEnum::TEMPERATUREGRADIENTUNIT.to_string()),
            ("TEMPERATURERATEOFCHANGEUNIT", DerivedUnitEnum::TEMPERATURERATEOFCHANGEUNIT.to_string()),
            ("THERMALEXPANSIONCOEFFICIENTUNIT", DerivedUnitEnum::THERMALEXPANSIONCOEFFICIENTUNIT.to_string()),
            ("WARPINGCONSTANTUNIT", DerivedUnitEnum::WARPINGCONSTANTUNIT.to_string()),
            ("WARPINGMOMENTUNIT", DerivedUnitEnum::WARPINGMOMENTUNIT.to_string()),
            ("USERDEFINED", DerivedUnitEnum::USERDEFINED.to_string()),
        ]),
        ("DimensionCount", vec![
            ("One", DimensionCount::One.to_string()),
            ("Two", DimensionCount::Two.to_string()),
            ("Three", DimensionCount::Three.to_string()),
        ]),
        ("DirectionSenseEnum", vec![
            ("Positive", DirectionSenseEnum::Positive.to_string()),
            ("Negative", DirectionSenseEnum::Negative.to_string()),
        ]),
        ("DoorOperationTypeEnum", vec![
            ("SingleSwingLeft", DoorOperationTypeEnum::SingleSwingLeft.to_string()),
            ("SingleSwingRight", DoorOperationTypeEnum::SingleSwingRight.to_string()),
            ("DoubleDoorSingleSwing", DoorOperationTypeEnum::DoubleDoorSingleSwing.to_string()),
            ("DoubleSwingLeft", DoorOperationTypeEnum::DoubleSwingLeft.to_string()),
            ("DoubleSwingRight", DoorOperationTypeEnum::DoubleSwingRight.to_string()),
            ("DoubleDoorDoubleSwing", DoorOperationTypeEnum::DoubleDoorDoubleSwing.to_string()),
            ("DoubleDoorSingleSwingOppositeLeft", DoorOperationTypeEnum::DoubleDoorSingleSwingOppositeLeft.to_string()),
            ("DoubleDoorSingleSwingOppositeRight", DoorOperationTypeEnum::DoubleDoorSingleSwingOppositeRight.to_string()),
            ("SlidingToLeft", DoorOperationTypeEnum::SlidingToLeft.to_string()),
            ("SlidingToRight", DoorOperationTypeEnum::SlidingToRight.to_string()),
            ("DoubleDoorSliding", DoorOperationTypeEnum::DoubleDoorSliding.to_string()),
            ("FoldingToLeft", DoorOperationTypeEnum::FoldingToLeft.to_string()),
            ("FoldingToRight", DoorOperationTypeEnum::FoldingToRight.to_string()),
            ("DoubleDoorFolding", DoorOperationTypeEnum::DoubleDoorFolding.to_string()),
            ("Revolving", DoorOperationTypeEnum::Revolving.to_string()),
            ("RollingUp", DoorOperationTypeEnum::RollingUp.to_string()),
            ("SwingFixedLeft", DoorOperationTypeEnum::SwingFixedLeft.to_string()),
            ("SwingFixedRight", DoorOperationTypeEnum::SwingFixedRight.to_string()),
            ("UserDefined", DoorOperationTypeEnum::UserDefined.to_string()),
            ("NotDefined", DoorOperationTypeEnum::NotDefined.to_string()),
        ]),
        ("DoorTypeEnum", vec![
            ("Door", DoorTypeEnum::Door.to_string()),
            ("Gate", DoorTypeEnum::Gate.to_string()),
            ("Trapdoor", DoorTypeEnum::Trapdoor.to_string()),
            ("UserDefined", DoorTypeEnum::UserDefined.to_string()),
            ("NotDefined", DoorTypeEnum::NotDefined.to_string()),
        ]),
        ("GeometricProjection", vec![
            ("GraphView", GeometricProjection::GraphView.to_string()),
            ("SketchView", GeometricProjection::SketchView.to_string()),
            ("ModelView", GeometricProjection::ModelView.to_string()),
            ("PlanView", GeometricProjection::PlanView.to_string()),
            ("ReflectedPlanView", GeometricProjection::ReflectedPlanView.to_string()),
            ("SectionView", GeometricProjection::SectionView.to_string()),
            ("ElevationView", GeometricProjection::ElevationView.to_string()),
            ("UserDefined", GeometricProjection::UserDefined.to_string()),
            ("NotDefined", GeometricProjection::NotDefined.to_string()),
        ]),
        ("IfcPrefix", vec![
            ("Exa", IfcPrefix::Exa.to_string()),
            ("Peta", IfcPrefix::Peta.to_string()),
            ("Tera", IfcPrefix::Tera.to_string()),
            ("Giga", IfcPrefix::Giga.to_string()),
            ("Mega", IfcPrefix::Mega.to_string()),
            ("Kilo", IfcPrefix::Kilo.to_string()),
            ("Deca", IfcPrefix::Deca.to_string()),
            ("Deci", IfcPrefix::Deci.to_string()),
            ("Centi", IfcPrefix::Centi.to_string()),
            ("Milli", IfcPrefix::Milli.to_string()),
            ("Micro", IfcPrefix::Micro.to_string()),
            ("Nano", IfcPrefix::Nano.to_string()),
            ("Pico", IfcPrefix::Pico.to_string()),
            ("Femto", IfcPrefix::Femto.to_string()),
            ("Atto", IfcPrefix::Atto.to_string()),
        ]),
        ("IfcUnitEnum", vec![
            ("AbsorbedDoseUnit", IfcUnitEnum::AbsorbedDoseUnit.to_string()),
            ("AmountOfSubstanceUnit", IfcUnitEnum::AmountOfSubstanceUnit.to_string()),
            ("AreaUnit", IfcUnitEnum::AreaUnit.to_string()),
            ("DoseEquivalentUnit", IfcUnitEnum::DoseEquivalentUnit.to_string()),
            ("ElectricCapacitanceUnit", IfcUnitEnum::ElectricCapacitanceUnit.to_string()),
            ("ElectricChargeUnit", IfcUnitEnum::ElectricChargeUnit.to_string()),
            ("ElectricConductanceUnit", IfcUnitEnum::ElectricConductanceUnit.to_string()),
            ("ElectricCurrentUnit", IfcUnitEnum::ElectricCurrentUnit.to_string()),
            ("ElectricResistanceUnit", IfcUnitEnum::ElectricResistanceUnit.to_string()),
            ("ElectricVoltageUnit", IfcUnitEnum::ElectricVoltageUnit.to_string()),
            ("EnergyUnit", IfcUnitEnum::EnergyUnit.to_string()),
            ("ForceUnit", IfcUnitEnum::ForceUnit.to_string()),
            ("IlluminanceUnit", IfcUnitEnum::IlluminanceUnit.to_string()),
            ("InductanceUnit", IfcUnitEnum::InductanceUnit.to_string()),
            ("LengthUnit", IfcUnitEnum::LengthUnit.to_string()),
            ("LuminousFluxUnit", IfcUnitEnum::LuminousFluxUnit.to_string()),
            ("LuminousIntensityUnit", IfcUnitEnum::LuminousIntensityUnit.to_string()),
            ("MagneticFluxDensityUnit", IfcUnitEnum::MagneticFluxDensityUnit.to_string()),
            ("MagneticFluxUnit", IfcUnitEnum::MagneticFluxUnit.to_string()),
            ("MassUnit", IfcUnitEnum::MassUnit.to_string()),
            ("PlaneAngleUnit", IfcUnitEnum::PlaneAngleUnit.to_string()),
            ("PowerUnit", IfcUnitEnum::PowerUnit.to_string()),
            ("PressureUnit", IfcUnitEnum::PressureUnit.to_string()),
            ("RadioActivityUnit", IfcUnitEnum::RadioActivityUnit.to_string()),
            ("SolidAngleUnit", IfcUnitEnum::SolidAngleUnit.to_string()),
            ("ThermoDynamicTemperatureUnit", IfcUnitEnum::ThermoDynamicTemperatureUnit.to_string()),
            ("TimeUnit", IfcUnitEnum::TimeUnit.to_string()),
            ("VolumeUnit", IfcUnitEnum::VolumeUnit.to_string()),
            ("UserDefined", IfcUnitEnum::UserDefined.to_string()),
        ]),
        ("IfcUnitName", vec![
            ("Ampere", IfcUnitName::Ampere.to_string()),
            ("Becquerel", IfcUnitName::Becquerel.to_string()),
            ("Candela", IfcUnitName::Candela.to_string()),
            ("Couloumb", IfcUnitName::Couloumb.to_string()),
            ("CubicMetre", IfcUnitName::CubicMetre.to_string()),
            ("DegreeCelcius", IfcUnitName::DegreeCelcius.to_string()),
            ("Farad", IfcUnitName::Farad.to_string()),
            ("Gram", IfcUnitName::Gram.to_string()),
            ("Gray", IfcUnitName::Gray.to_string()),
            ("Henry", IfcUnitName::Henry.to_string()),
            ("Hertz", IfcUnitName::Hertz.to_string()),
            ("Joule", IfcUnitName::Joule.to_string()),
            ("Kelvin", IfcUnitName::Kelvin.to_string()),
            ("Lumen", IfcUnitName::Lumen.to_string()),
            ("Lux", IfcUnitName::Lux.to_string()),
            ("Metre", IfcUnitName::Metre.to_string()),
            ("Mole", IfcUnitName::Mole.to_string()),
            ("Newton", IfcUnitName::Newton.to_string()),
            ("Ohm", IfcUnitName::Ohm.to_string()),
            ("Pascal", IfcUnitName::Pascal.to_string()),
            ("Radian", IfcUnitName::Radian.to_string()),
            ("Second", IfcUnitName::Second.to_string()),
            ("Siemens", IfcUnitName::Siemens.to_string()),
            ("Sievert", IfcUnitName::Sievert.to_string()),
            ("SquareMetre", IfcUnitName::SquareMetre.to_string()),
            ("Steradian", IfcUnitName::Steradian.to_string()),
            ("Tesla", IfcUnitName::Tesla.to_string()),
            ("Volt", IfcUnitName::Volt.to_string()),
            ("Watt", IfcUnitName::Watt.to_string()),
            ("Weber", IfcUnitName::Weber.to_string()),
        ]),
        ("LayerSetDirectionEnum", vec![
            ("Axis1", LayerSetDirectionEnum::Axis1.to_string()),
            ("Axis2", LayerSetDirectionEnum::Axis2.to_string()),
            ("Axis3", LayerSetDirectionEnum::Axis3.to_string()),
        ]),
        ("OpeningElementTypeEnum", vec![
            ("Opening", OpeningElementTypeEnum::Opening.to_string()),
            ("Recess", OpeningElementTypeEnum::Recess.to_string()),
            ("UserDefined", OpeningElementTypeEnum::UserDefined.to_string()),
            ("NotDefined", OpeningElementTypeEnum::NotDefined.to_string()),
        ]),
        ("ProfileType", vec![
            ("Curve", ProfileType::Curve.to_string()),
            ("Area", ProfileType::Area.to_string()),
        ]),
        ("RepresentationIdentifier", vec![
            ("CoG", RepresentationIdentifier::CoG.to_string()),
            ("Box", RepresentationIdentifier::Box.to_string()),
            ("Annotation", RepresentationIdentifier::Annotation.to_string()),
            ("Axis", RepresentationIdentifier::Axis.to_string()),
            ("FootPrint", RepresentationIdentifier::FootPrint.to_string()),
            ("Profile", RepresentationIdentifier::Profile.to_string()),
            ("Surface", RepresentationIdentifier::Surface.to_string()),
            ("Reference", RepresentationIdentifier::Reference.to_string()),
            ("Body", RepresentationIdentifier::Body.to_string()),
            ("BodyFallBack", RepresentationIdentifier::BodyFallBack.to_string()),
            ("Clearance", RepresentationIdentifier::Clearance.to_string()),
            ("Lighting", RepresentationIdentifier::Lighting.to_string()),
        ]),
        ("RepresentationType", vec![
            ("Point", RepresentationType::Point.to_string()),
            ("PointCloud", RepresentationType::PointCloud.to_string()),
            ("Curve", RepresentationType::Curve.to_string()),
            ("Curve2D", RepresentationType::Curve2D.to_string()),
            ("Curve3D", RepresentationType::Curve3D.to_string()),
            ("Surface", RepresentationType::Surface.to_string()),
            ("Surface2D", RepresentationType::Surface2D.to_string()),
            ("Surface3D", RepresentationType::Surface3D.to_string()),
            ("SectionedSurface", RepresentationType::SectionedSurface.to_string()),
            ("FillArea", RepresentationType::FillArea.to_string()),
            ("Text", RepresentationType::Text.to_string()),
            ("AdvancedSurface", RepresentationType::AdvancedSurface.to_string()),
            ("GeometricSet", RepresentationType::GeometricSet.to_string()),
            ("GeometricCurveSet", RepresentationType::GeometricCurveSet.to_string()),
            ("Annotation2D", RepresentationType::Annotation2D.to_string()),
            ("SurfaceModel", RepresentationType::SurfaceModel.to_string()),
            ("Tessellation", RepresentationType::Tessellation.to_string()),
            ("Segment", RepresentationType::Segment.to_string()),
            ("SolidModel", RepresentationType::SolidModel.to_string()),
            ("SweptSolid", RepresentationType::SweptSolid.to_string()),
            ("AdvancedSweptSolid", RepresentationType::AdvancedSweptSolid.to_string()),
            ("Brep", RepresentationType::Brep.to_string()),
            ("AdvancedBrep", RepresentationType::AdvancedBrep.to_string()),
            ("CSG", RepresentationType::CSG.to_string()),
            ("Clipping", RepresentationType::Clipping.to_string()),
            ("BoundingBox", RepresentationType::BoundingBox.to_string()),
            ("SectionedSpine", RepresentationType::SectionedSpine.to_string()),
            ("LightSource", RepresentationType::LightSource.to_string()),
            ("MappedRepresentation", RepresentationType::MappedRepresentation.to_string()),
        ]),
        ("Role", vec![
            ("Supplier", Role::Supplier.to_string()),
            ("Manufacturer", Role::Manufacturer.to_string()),
            ("Contractor", Role::Contractor.to_string()),
            ("Subcontractor", Role::Subcontractor.to_string()),
            ("Architect", Role::Architect.to_string()),
            ("StructuralEngineer", Role::StructuralEngineer.to_string()),
            ("CostEngineer", Role::CostEngineer.to_string()),
            ("Clien", Role::Clien.to_string()),
            ("BuildingOwner", Role::BuildingOwner.to_string()),
            ("BuildingOperator", Role::BuildingOperator.to_string()),
            ("MechanicalEngineer", Role::MechanicalEngineer.to_string()),
            ("ElectricalEngineer", Role::ElectricalEngineer.to_string()),
            ("ProjectManager", Role::ProjectManager.to_string()),
            ("FacilitiesManager", Role::FacilitiesManager.to_string()),
            ("CivilEngineer", Role::CivilEngineer.to_string()),
            ("ComissionEngineer", Role::ComissionEngineer.to_string()),
            ("Engineer", Role::Engineer.to_string()),
            ("Owner", Role::Owner.to_string()),
            ("Consultant", Role::Consultant.to_string()),
            ("ConstructionManager", Role::ConstructionManager.to_string()),
            ("FieldConstructionManager", Role::FieldConstructionManager.to_string()),
            ("Reseller", Role::Reseller.to_string()),
            ("UserDefined", Role::UserDefined.to_string()),
        ]),
        ("RoofTypeEnum", vec![
            ("FlatRoof", RoofTypeEnum::FlatRoof.to_string()),
            ("ShedRoof", RoofTypeEnum::ShedRoof.to_string()),
            ("GableRoof", RoofTypeEnum::GableRoof.to_string()),
            ("HipRoof", RoofTypeEnum::HipRoof.to_string()),
            ("HippedGableRoof", RoofTypeEnum::HippedGableRoof.to_string()),
            ("GambrelRoof", RoofTypeEnum::GambrelRoof.to_string()),
            ("MansardRoof", RoofTypeEnum::MansardRoof.to_string()),
            ("BarrelRoof", RoofTypeEnum::BarrelRoof.to_string()),
            ("RainbowRoof", RoofTypeEnum::RainbowRoof.to_string()),
            ("ButterflyRoof", RoofTypeEnum::ButterflyRoof.to_string()),
            ("PavilionRoof", RoofTypeEnum::PavilionRoof.to_string()),
            ("DomeRoof", RoofTypeEnum::DomeRoof.to_string()),
            ("UserDefined", RoofTypeEnum::UserDefined.to_string()),
            ("NotDefined", RoofTypeEnum::NotDefined.to_string()),
        ]),
        ("ShadingDeviceTypeEnum", vec![
            ("Awning", ShadingDeviceTypeEnum::Awning.to_string()),
            ("Parking", ShadingDeviceTypeEnum::Parking.to_string()),
            ("Shutter", ShadingDeviceTypeEnum::Shutter.to_string()),
            ("UserDefined", ShadingDeviceTypeEnum::UserDefined.to_string()),
            ("NotDefined", ShadingDeviceTypeEnum::NotDefined.to_string()),
        ]),
        ("SlabTypeEnum", vec![
            ("Floor", SlabTypeEnum::Floor.to_string()),
            ("Roof", SlabTypeEnum::Roof.to_string()),
            ("Landing", SlabTypeEnum::Landing.to_string()),
            ("BaseSlab", SlabTypeEnum::BaseSlab.to_string()),
            ("UserDefined", SlabTypeEnum::UserDefined.to_string()),
            ("NotDefined", SlabTypeEnum::NotDefined.to_string()),
        ]),
        ("SpaceTypeEnum", vec![
            ("Space", SpaceTypeEnum::Space.to_string()),
            ("Parking", SpaceTypeEnum::Parking.to_string()),
            ("Gfa", SpaceTypeEnum::Gfa.to_string()),
            ("Internal", SpaceTypeEnum::Internal.to_string()),
            ("External", SpaceTypeEnum::External.to_string()),
            ("UserDefined", SpaceTypeEnum::UserDefined.to_string()),
            ("NotDefined", SpaceTypeEnum::NotDefined.to_string()),
        ]),
        ("WallTypeEnum", vec![
            ("Movable", WallTypeEnum::Movable.to_string()),
            ("Parapet", WallTypeEnum::Parapet.to_string()),
            ("Partitioning", WallTypeEnum::Partitioning.to_string()),
            ("Plumbingwall", WallTypeEnum::Plumbingwall.to_string()),
            ("Shear", WallTypeEnum::Shear.to_string()),
            ("Solidwall", WallTypeEnum::Solidwall.to_string()),
            ("Standard", WallTypeEnum::Standard.to_string()),
            ("Polygonal", WallTypeEnum::Polygonal.to_string()),
            ("Elementedwall", WallTypeEnum::Elementedwall.to_string()),
            ("Retainingwall", WallTypeEnum::Retainingwall.to_string()),
            ("UserDefined", WallTypeEnum::UserDefined.to_string()),
            ("NotDefined", WallTypeEnum::NotDefined.to_string()),
        ]),
        ("WindowPartitioningTypeEnum", vec![
            ("SinglePanel", WindowPartitioningTypeEnum::SinglePanel.to_string()),
            ("DoublePanelVertical", WindowPartitioningTypeEnum::DoublePanelVertical.to_string()),
            ("DoublePanelHorizontal", WindowPartitioningTypeEnum::DoublePanelHorizontal.to_string()),
            ("TriplePanelVertical", WindowPartitioningTypeEnum::TriplePanelVertical.to_string()),
            ("TriplePanelHorizontal", WindowPartitioningTypeEnum::TriplePanelHorizontal.to_string()),
            ("TriplePanelBottom", WindowPartitioningTypeEnum::TriplePanelBottom.to_string()),
            ("TriplePanelTop", WindowPartitioningTypeEnum::TriplePanelTop.to_string()),
            ("TriplePanelLeft", WindowPartitioningTypeEnum::TriplePanelLeft.to_string()),
            ("TriplePanelRight", WindowPartitioningTypeEnum::TriplePanelRight.to_string()),
            ("UserDefined", WindowPartitioningTypeEnum::UserDefined.to_string()),
            ("NotDefined", WindowPartitioningTypeEnum::NotDefined.to_string()),
        ]),
        ("WindowTypeEnum", vec![
            ("Window", WindowTypeEnum::Window.to_string()),
            ("Skylight", WindowTypeEnum::Skylight.to_string()),
            ("Lightdome", WindowTypeEnum::Lightdome.to_string()),
            ("UserDefined", WindowTypeEnum::UserDefined.to_string()),
            ("NotDefined", WindowTypeEnum::NotDefined.to_string()),
        ]),
    ]
}
