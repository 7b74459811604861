// generated by tools/gen.py from spec/IfcSchema.tla; do not edit
use ifc_rs::prelude::*;
#[allow(unused_imports)]
use crate::load::{Inst, Fields};

pub fn project(ifc: &IFC, out: &mut Vec<Inst>) {
    for (id, o) in ifc.data.find_all_of_type::<Organization>() {
        let f: Fields = vec![
            ("id", o.id.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("roles", o.roles.to_string()),
            ("addresses", o.addresses.to_string()),
        ];
        out.push((id.id().0.to_string(), "Organization", f, std::ptr::eq(ifc.data.get::<Organization>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Application>() {
        let f: Fields = vec![
            ("application_developer", o.application_developer.to_string()),
            ("version", o.version.to_string()),
            ("application_full_name", o.application_full_name.to_string()),
            ("application_identifier", o.application_identifier.to_string()),
        ];
        out.push((id.id().0.to_string(), "Application", f, std::ptr::eq(ifc.data.get::<Application>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<ActorRole>() {
        let f: Fields = vec![
            ("role", o.role.to_string()),
            ("user_defined_role", o.user_defined_role.to_string()),
            ("description", o.description.to_string()),
        ];
        out.push((id.id().0.to_string(), "ActorRole", f, std::ptr::eq(ifc.data.get::<ActorRole>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<TelecomAddress>() {
        let f: Fields = vec![
            ("purpose", o.purpose.to_string()),
            ("description", o.description.to_string()),
            ("user_defined_purpose", o.user_defined_purpose.to_string()),
            ("telephone_numbers", o.telephone_numbers.to_string()),
            ("facsimile_numbers", o.facsimile_numbers.to_string()),
            ("pager_number", o.pager_number.to_string()),
            ("email_addresses", o.email_addresses.to_string()),
            ("homepage_url", o.homepage_url.to_string()),
        ];
        out.push((id.id().0.to_string(), "TelecomAddress", f, std::ptr::eq(ifc.data.get::<TelecomAddress>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<PostalAddress>() {
        let f: Fields = vec![
            ("purpose", o.purpose.to_string()),
            ("description", o.description.to_string()),
            ("user_defined_purpose", o.user_defined_purpose.to_string()),
            ("internal_location", o.internal_location.to_string()),
            ("address_lines", o.address_lines.to_string()),
            ("postal_box", o.postal_box.to_string()),
            ("town", o.town.to_string()),
            ("region", o.region.to_string()),
            ("postal_code", o.postal_code.to_string()),
            ("country", o.country.to_string()),
        ];
        out.push((id.id().0.to_string(), "PostalAddress", f, std::ptr::eq(ifc.data.get::<PostalAddress>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Person>() {
        let f: Fields = vec![
            ("id", o.id.to_string()),
            ("family_name", o.family_name.to_string()),
            ("given_name", o.given_name.to_string()),
            ("middle_names", o.middle_names.to_string()),
            ("prefix_titles", o.prefix_titles.to_string()),
            ("suffix_titles", o.suffix_titles.to_string()),
            ("roles", o.roles.to_string()),
            ("addresses", o.addresses.to_string()),
        ];
        out.push((id.id().0.to_string(), "Person", f, std::ptr::eq(ifc.data.get::<Person>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<PersonAndOrganization>() {
        let f: Fields = vec![
            ("the_person", o.the_person.to_string()),
            ("the_organization", o.the_organization.to_string()),
            ("roles", o.roles.to_string()),
        ];
        out.push((id.id().0.to_string(), "PersonAndOrganization", f, std::ptr::eq(ifc.data.get::<PersonAndOrganization>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<OwnerHistory>() {
        let f: Fields = vec![
            ("owning_user", o.owning_user.to_string()),
            ("owning_application", o.owning_application.to_string()),
            ("state", o.state.to_string()),
            ("change_action", o.change_action.to_string()),
            ("last_modified_date", o.last_modified_date.to_string()),
            ("last_modifying_user", o.last_modifying_user.to_string()),
            ("last_modifying_application", o.last_modifying_application.to_string()),
            ("creation_date", o.creation_date.to_string()),
        ];
        out.push((id.id().0.to_string(), "OwnerHistory", f, std::ptr::eq(ifc.data.get::<OwnerHistory>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Project>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("object_type", o.object_type.to_string()),
            ("long_name", o.long_name.to_string()),
            ("phase", o.phase.to_string()),
            ("representation_context", o.representation_context.to_string()),
            ("units_in_context", o.units_in_context.to_string()),
        ];
        out.push((id.id().0.to_string(), "Project", f, std::ptr::eq(ifc.data.get::<Project>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Site>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("object_type", o.object_type.to_string()),
            ("object_placement", o.object_placement.to_string()),
            ("representation", o.representation.to_string()),
            ("long_name", o.long_name.to_string()),
            ("composition_type", o.composition_type.to_string()),
            ("ref_latitude", o.ref_latitude.to_string()),
            ("ref_longitude", o.ref_longitude.to_string()),
            ("ref_elevation", o.ref_elevation.to_string()),
            ("land_title_number", o.land_title_number.to_string()),
            ("site_address", o.site_address.to_string()),
        ];
        out.push((id.id().0.to_string(), "Site", f, std::ptr::eq(ifc.data.get::<Site>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Building>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("object_type", o.object_type.to_string()),
            ("object_placement", o.object_placement.to_string()),
            ("representation", o.representation.to_string()),
            ("long_name", o.long_name.to_string()),
            ("composition_type", o.composition_type.to_string()),
            ("elevation_of_ref_height", o.elevation_of_ref_height.to_string()),
            ("elevation_of_terrain", o.elevation_of_terrain.to_string()),
            ("building_address", o.building_address.to_string()),
        ];
        out.push((id.id().0.to_string(), "Building", f, std::ptr::eq(ifc.data.get::<Building>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Storey>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("object_type", o.object_type.to_string()),
            ("object_placement", o.object_placement.to_string()),
            ("representation", o.representation.to_string()),
            ("long_name", o.long_name.to_string()),
            ("composition_type", o.composition_type.to_string()),
            ("elevation", o.elevation.to_string()),
        ];
        out.push((id.id().0.to_string(), "Storey", f, std::ptr::eq(ifc.data.get::<Storey>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Space>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("object_type", o.object_type.to_string()),
            ("object_placement", o.object_placement.to_string()),
            ("representation", o.representation.to_string()),
            ("long_name", o.long_name.to_string()),
            ("composition_type", o.composition_type.to_string()),
            ("predefined_type", o.predefined_type.to_string()),
            ("elevation_with_flooring", o.elevation_with_flooring.to_string()),
        ];
        out.push((id.id().0.to_string(), "Space", f, std::ptr::eq(ifc.data.get::<Space>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Wall>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("object_type", o.object_type.to_string()),
            ("object_placement", o.object_placement.to_string()),
            ("representation", o.representation.to_string()),
            ("tag", o.tag.to_string()),
            ("predefined_type", o.predefined_type.to_string()),
        ];
        out.push((id.id().0.to_string(), "Wall", f, std::ptr::eq(ifc.data.get::<Wall>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Slab>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("object_type", o.object_type.to_string()),
            ("object_placement", o.object_placement.to_string()),
            ("representation", o.representation.to_string()),
            ("tag", o.tag.to_string()),
            ("predefined_type", o.predefined_type.to_string()),
        ];
        out.push((id.id().0.to_string(), "Slab", f, std::ptr::eq(ifc.data.get::<Slab>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Roof>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("object_type", o.object_type.to_string()),
            ("object_placement", o.object_placement.to_string()),
            ("representation", o.representation.to_string()),
            ("tag", o.tag.to_string()),
            ("predefined_type", o.predefined_type.to_string()),
        ];
        out.push((id.id().0.to_string(), "Roof", f, std::ptr::eq(ifc.data.get::<Roof>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<ShadingDevice>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("object_type", o.object_type.to_string()),
            ("object_placement", o.object_placement.to_string()),
            ("representation", o.representation.to_string()),
            ("tag", o.tag.to_string()),
            ("predefined_type", o.predefined_type.to_string()),
        ];
        out.push((id.id().0.to_string(), "ShadingDevice", f, std::ptr::eq(ifc.data.get::<ShadingDevice>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<OpeningElement>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("object_type", o.object_type.to_string()),
            ("object_placement", o.object_placement.to_string()),
            ("representation", o.representation.to_string()),
            ("tag", o.tag.to_string()),
            ("predefined_type", o.predefined_type.to_string()),
        ];
        out.push((id.id().0.to_string(), "OpeningElement", f, std::ptr::eq(ifc.data.get::<OpeningElement>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Door>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("object_type", o.object_type.to_string()),
            ("object_placement", o.object_placement.to_string()),
            ("representation", o.representation.to_string()),
            ("tag", o.tag.to_string()),
            ("overall_height", o.overall_height.to_string()),
            ("overall_width", o.overall_width.to_string()),
            ("predefined_type", o.predefined_type.to_string()),
            ("operation_type", o.operation_type.to_string()),
            ("user_defining_operation_type", o.user_defining_operation_type.to_string()),
        ];
        out.push((id.id().0.to_string(), "Door", f, std::ptr::eq(ifc.data.get::<Door>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Window>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("object_type", o.object_type.to_string()),
            ("object_placement", o.object_placement.to_string()),
            ("representation", o.representation.to_string()),
            ("tag", o.tag.to_string()),
            ("overall_height", o.overall_height.to_string()),
            ("overall_width", o.overall_width.to_string()),
            ("predefined_type", o.predefined_type.to_string()),
            ("partitioning_type", o.partitioning_type.to_string()),
            ("user_defining_partitioning_type", o.user_defining_partitioning_type.to_string()),
        ];
        out.push((id.id().0.to_string(), "Window", f, std::ptr::eq(ifc.data.get::<Window>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<WallType>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("applicable_occurence", o.applicable_occurence.to_string()),
            ("has_property_sets", o.has_property_sets.to_string()),
            ("representation_maps", o.representation_maps.to_string()),
            ("tag", o.tag.to_string()),
            ("element_type", o.element_type.to_string()),
            ("predefined_type", o.predefined_type.to_string()),
        ];
        out.push((id.id().0.to_string(), "WallType", f, std::ptr::eq(ifc.data.get::<WallType>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<SlabType>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("applicable_occurence", o.applicable_occurence.to_string()),
            ("has_property_sets", o.has_property_sets.to_string()),
            ("representation_maps", o.representation_maps.to_string()),
            ("tag", o.tag.to_string()),
            ("element_type", o.element_type.to_string()),
            ("predefined_type", o.predefined_type.to_string()),
        ];
        out.push((id.id().0.to_string(), "SlabType", f, std::ptr::eq(ifc.data.get::<SlabType>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<RoofType>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("applicable_occurence", o.applicable_occurence.to_string()),
            ("has_property_sets", o.has_property_sets.to_string()),
            ("representation_maps", o.representation_maps.to_string()),
            ("tag", o.tag.to_string()),
            ("element_type", o.element_type.to_string()),
            ("predefined_type", o.predefined_type.to_string()),
        ];
        out.push((id.id().0.to_string(), "RoofType", f, std::ptr::eq(ifc.data.get::<RoofType>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<ShadingDeviceType>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("applicable_occurence", o.applicable_occurence.to_string()),
            ("has_property_sets", o.has_property_sets.to_string()),
            ("representation_maps", o.representation_maps.to_string()),
            ("tag", o.tag.to_string()),
            ("element_type", o.element_type.to_string()),
            ("predefined_type", o.predefined_type.to_string()),
        ];
        out.push((id.id().0.to_string(), "ShadingDeviceType", f, std::ptr::eq(ifc.data.get::<ShadingDeviceType>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<SpaceType>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("applicable_occurence", o.applicable_occurence.to_string()),
            ("has_property_sets", o.has_property_sets.to_string()),
            ("representation_maps", o.representation_maps.to_string()),
            ("tag", o.tag.to_string()),
            ("element_type", o.element_type.to_string()),
            ("predefined_type", o.predefined_type.to_string()),
            ("long_name", o.long_name.to_string()),
        ];
        out.push((id.id().0.to_string(), "SpaceType", f, std::ptr::eq(ifc.data.get::<SpaceType>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<DoorType>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("applicable_occurence", o.applicable_occurence.to_string()),
            ("has_property_sets", o.has_property_sets.to_string()),
            ("representation_maps", o.representation_maps.to_string()),
            ("tag", o.tag.to_string()),
            ("element_type", o.element_type.to_string()),
            ("predefined_type", o.predefined_type.to_string()),
            ("operation_type", o.operation_type.to_string()),
            ("parameter_takes_precedence", o.parameter_takes_precedence.to_string()),
            ("user_defined_partitioning_type", o.user_defined_partitioning_type.to_string()),
        ];
        out.push((id.id().0.to_string(), "DoorType", f, std::ptr::eq(ifc.data.get::<DoorType>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<WindowType>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("applicable_occurence", o.applicable_occurence.to_string()),
            ("has_property_sets", o.has_property_sets.to_string()),
            ("representation_maps", o.representation_maps.to_string()),
            ("tag", o.tag.to_string()),
            ("element_type", o.element_type.to_string()),
            ("predefined_type", o.predefined_type.to_string()),
            ("partitioning_type", o.partitioning_type.to_string()),
            ("parameter_takes_precedence", o.parameter_takes_precedence.to_string()),
            ("user_defined_partitioning_type", o.user_defined_partitioning_type.to_string()),
        ];
        out.push((id.id().0.to_string(), "WindowType", f, std::ptr::eq(ifc.data.get::<WindowType>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<RelAggregates>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("relating_object", o.relating_object.to_string()),
            ("related_objects", o.related_objects.to_string()),
        ];
        out.push((id.id().0.to_string(), "RelAggregates", f, std::ptr::eq(ifc.data.get::<RelAggregates>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<RelAssociatesMaterial>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("related_objects", o.related_objects.to_string()),
            ("relating_material", o.relating_material.to_string()),
        ];
        out.push((id.id().0.to_string(), "RelAssociatesMaterial", f, std::ptr::eq(ifc.data.get::<RelAssociatesMaterial>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<RelContainedInSpatialStructure>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("related_elements", o.related_elements.to_string()),
            ("relating_structure", o.relating_structure.to_string()),
        ];
        out.push((id.id().0.to_string(), "RelContainedInSpatialStructure", f, std::ptr::eq(ifc.data.get::<RelContainedInSpatialStructure>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<RelDeclares>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("relating_context", o.relating_context.to_string()),
            ("related_definitions", o.related_definitions.to_string()),
        ];
        out.push((id.id().0.to_string(), "RelDeclares", f, std::ptr::eq(ifc.data.get::<RelDeclares>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<RelDefinesByProperties>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("related_objects", o.related_objects.to_string()),
            ("relating_property_definition", o.relating_property_definition.to_string()),
        ];
        out.push((id.id().0.to_string(), "RelDefinesByProperties", f, std::ptr::eq(ifc.data.get::<RelDefinesByProperties>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<RelDefinesByType>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("related_objects", o.related_objects.to_string()),
            ("relating_type", o.relating_type.to_string()),
        ];
        out.push((id.id().0.to_string(), "RelDefinesByType", f, std::ptr::eq(ifc.data.get::<RelDefinesByType>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<RelFillsElement>() {
        let f: Fields = vec![
            ("related_building_element", o.related_building_element.to_string()),
        ];
        out.push((id.id().0.to_string(), "RelFillsElement", f, std::ptr::eq(ifc.data.get::<RelFillsElement>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<RelVoidsElement>() {
        let f: Fields = vec![
            ("relating_building_element", o.relating_building_element.to_string()),
            ("related_opening_element", o.related_opening_element.to_string()),
        ];
        out.push((id.id().0.to_string(), "RelVoidsElement", f, std::ptr::eq(ifc.data.get::<RelVoidsElement>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<MappedItem>() {
        let f: Fields = vec![
            ("source", o.source.to_string()),
            ("target", o.target.to_string()),
        ];
        out.push((id.id().0.to_string(), "MappedItem", f, std::ptr::eq(ifc.data.get::<MappedItem>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<RepresentationMap>() {
        let f: Fields = vec![
            ("origin", o.origin.to_string()),
            ("representation", o.representation.to_string()),
        ];
        out.push((id.id().0.to_string(), "RepresentationMap", f, std::ptr::eq(ifc.data.get::<RepresentationMap>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<ArbitraryClosedProfileDef>() {
        let f: Fields = vec![
            ("profile_type", o.profile_type.to_string()),
            ("profile_name", o.profile_name.to_string()),
            ("outer_curve", o.outer_curve.to_string()),
        ];
        out.push((id.id().0.to_string(), "ArbitraryClosedProfileDef", f, std::ptr::eq(ifc.data.get::<ArbitraryClosedProfileDef>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<RectangleProfileDef>() {
        let f: Fields = vec![
            ("profile_type", o.profile_type.to_string()),
            ("profile_name", o.profile_name.to_string()),
            ("position", o.position.to_string()),
            ("x_dim", o.x_dim.to_string()),
            ("y_dim", o.y_dim.to_string()),
        ];
        out.push((id.id().0.to_string(), "RectangleProfileDef", f, std::ptr::eq(ifc.data.get::<RectangleProfileDef>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Axis2D>() {
        let f: Fields = vec![
            ("location", o.location.to_string()),
            ("local_x", o.local_x.to_string()),
        ];
        out.push((id.id().0.to_string(), "Axis2D", f, std::ptr::eq(ifc.data.get::<Axis2D>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Axis3D>() {
        let f: Fields = vec![
            ("location", o.location.to_string()),
            ("local_z", o.local_z.to_string()),
            ("local_x", o.local_x.to_string()),
        ];
        out.push((id.id().0.to_string(), "Axis3D", f, std::ptr::eq(ifc.data.get::<Axis3D>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Direction2D>() {
        let f: Fields = vec![
        ];
        out.push((id.id().0.to_string(), "Direction2D", f, std::ptr::eq(ifc.data.get::<Direction2D>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Direction3D>() {
        let f: Fields = vec![
        ];
        out.push((id.id().0.to_string(), "Direction3D", f, std::ptr::eq(ifc.data.get::<Direction3D>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Point2D>() {
        let f: Fields = vec![
            ("0", format!("({:?},{:?})", o.x, o.y)),
        ];
        out.push((id.id().0.to_string(), "Point2D", f, std::ptr::eq(ifc.data.get::<Point2D>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Point3D>() {
        let f: Fields = vec![
            ("0", format!("({:?},{:?},{:?})", o.x, o.y, o.z)),
        ];
        out.push((id.id().0.to_string(), "Point3D", f, std::ptr::eq(ifc.data.get::<Point3D>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<PointList2D>() {
        let f: Fields = vec![
            ("coord_list", o.coord_list.to_string()),
            ("tag_list", o.tag_list.to_string()),
        ];
        out.push((id.id().0.to_string(), "PointList2D", f, std::ptr::eq(ifc.data.get::<PointList2D>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<PointList3D>() {
        let f: Fields = vec![
            ("coord_list", o.coord_list.to_string()),
            ("tag_list", o.tag_list.to_string()),
        ];
        out.push((id.id().0.to_string(), "PointList3D", f, std::ptr::eq(ifc.data.get::<PointList3D>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<IndexedPolyCurve>() {
        let f: Fields = vec![
            ("points", o.points.to_string()),
            ("segments", o.segments.to_string()),
            ("self_intersect", o.self_intersect.to_string()),
        ];
        out.push((id.id().0.to_string(), "IndexedPolyCurve", f, std::ptr::eq(ifc.data.get::<IndexedPolyCurve>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<PolyLine>() {
        let f: Fields = vec![
            ("points", o.points.to_string()),
        ];
        out.push((id.id().0.to_string(), "PolyLine", f, std::ptr::eq(ifc.data.get::<PolyLine>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<ExtrudedAreaSolid>() {
        let f: Fields = vec![
            ("swept_area", o.swept_area.to_string()),
            ("position", o.position.to_string()),
            ("extruded_direction", o.extruded_direction.to_string()),
            ("depth", o.depth.to_string()),
        ];
        out.push((id.id().0.to_string(), "ExtrudedAreaSolid", f, std::ptr::eq(ifc.data.get::<ExtrudedAreaSolid>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<ProductDefinitionShape>() {
        let f: Fields = vec![
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("representations", o.representations.to_string()),
        ];
        out.push((id.id().0.to_string(), "ProductDefinitionShape", f, std::ptr::eq(ifc.data.get::<ProductDefinitionShape>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<GeometricRepresentationContext>() {
        let f: Fields = vec![
            ("context_identifier", o.context_identifier.to_string()),
            ("context_type", o.context_type.to_string()),
            ("coord_space_dimension", o.coord_space_dimension.to_string()),
            ("precision", o.precision.to_string()),
            ("world_coord_system", o.world_coord_system.to_string()),
            ("true_north", o.true_north.to_string()),
        ];
        out.push((id.id().0.to_string(), "GeometricRepresentationContext", f, std::ptr::eq(ifc.data.get::<GeometricRepresentationContext>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<GeometricRepresentationSubContext>() {
        let f: Fields = vec![
            ("context_identifier", o.context_identifier.to_string()),
            ("context_type", o.context_type.to_string()),
            ("coord_space_dimension", o.coord_space_dimension.to_string()),
            ("precision", o.precision.to_string()),
            ("world_coord_system", o.world_coord_system.to_string()),
            ("true_north", o.true_north.to_string()),
            ("parent_context", o.parent_context.to_string()),
            ("target_scale", o.target_scale.to_string()),
            ("target_view", o.target_view.to_string()),
            ("user_defined_target_view", o.user_defined_target_view.to_string()),
        ];
        out.push((id.id().0.to_string(), "GeometricRepresentationSubContext", f, std::ptr::eq(ifc.data.get::<GeometricRepresentationSubContext>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<ShapeRepresentation>() {
        let f: Fields = vec![
            ("context_of_items", o.context_of_items.to_string()),
            ("representation_identifier", o.representation_identifier.to_string()),
            ("representation_type", o.representation_type.to_string()),
            ("items", o.items.to_string()),
        ];
        out.push((id.id().0.to_string(), "ShapeRepresentation", f, std::ptr::eq(ifc.data.get::<ShapeRepresentation>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<LocalPlacement>() {
        let f: Fields = vec![
            ("placement_rel_to", o.placement_rel_to.to_string()),
            ("relative_placement", o.relative_placement.to_string()),
        ];
        out.push((id.id().0.to_string(), "LocalPlacement", f, std::ptr::eq(ifc.data.get::<LocalPlacement>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<CartesianTransformationOperator3D>() {
        let f: Fields = vec![
            ("axis_x", o.axis_x.to_string()),
            ("axis_y", o.axis_y.to_string()),
            ("local_origin", o.local_origin.to_string()),
            ("scale", o.scale.to_string()),
            ("axis_z", o.axis_z.to_string()),
        ];
        out.push((id.id().0.to_string(), "CartesianTransformationOperator3D", f, std::ptr::eq(ifc.data.get::<CartesianTransformationOperator3D>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<CartesianTransformationOperator3DnonUniform>() {
        let f: Fields = vec![
            ("axis_x", o.axis_x.to_string()),
            ("axis_y", o.axis_y.to_string()),
            ("local_origin", o.local_origin.to_string()),
            ("scale", o.scale.to_string()),
            ("axis_z", o.axis_z.to_string()),
            ("scale_y", o.scale_y.to_string()),
            ("scale_z", o.scale_z.to_string()),
        ];
        out.push((id.id().0.to_string(), "CartesianTransformationOperator3DnonUniform", f, std::ptr::eq(ifc.data.get::<CartesianTransformationOperator3DnonUniform>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Material>() {
        let f: Fields = vec![
            ("material", o.material.to_string()),
            ("description", o.description.to_string()),
            ("category", o.category.to_string()),
        ];
        out.push((id.id().0.to_string(), "Material", f, std::ptr::eq(ifc.data.get::<Material>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<MaterialConstituent>() {
        let f: Fields = vec![
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("material", o.material.to_string()),
            ("fraction", o.fraction.to_string()),
            ("category", o.category.to_string()),
        ];
        out.push((id.id().0.to_string(), "MaterialConstituent", f, std::ptr::eq(ifc.data.get::<MaterialConstituent>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<MaterialConstituentSet>() {
        let f: Fields = vec![
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("material_constituents", o.material_constituents.to_string()),
        ];
        out.push((id.id().0.to_string(), "MaterialConstituentSet", f, std::ptr::eq(ifc.data.get::<MaterialConstituentSet>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<MaterialLayer>() {
        let f: Fields = vec![
            ("material", o.material.to_string()),
            ("layer_thickness", o.layer_thickness.to_string()),
            ("is_ventilated", o.is_ventilated.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("category", o.category.to_string()),
            ("priority", o.priority.to_string()),
        ];
        out.push((id.id().0.to_string(), "MaterialLayer", f, std::ptr::eq(ifc.data.get::<MaterialLayer>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<MaterialLayerSet>() {
        let f: Fields = vec![
            ("material_layers", o.material_layers.to_string()),
            ("layer_set_name", o.layer_set_name.to_string()),
            ("description", o.description.to_string()),
        ];
        out.push((id.id().0.to_string(), "MaterialLayerSet", f, std::ptr::eq(ifc.data.get::<MaterialLayerSet>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<MaterialLayerSetUsage>() {
        let f: Fields = vec![
            ("spatial_element_structure", o.spatial_element_structure.to_string()),
            ("layer_set_direction", o.layer_set_direction.to_string()),
            ("direction_sense", o.direction_sense.to_string()),
            ("offset_from_reference_line", o.offset_from_reference_line.to_string()),
            ("reference_extent", o.reference_extent.to_string()),
        ];
        out.push((id.id().0.to_string(), "MaterialLayerSetUsage", f, std::ptr::eq(ifc.data.get::<MaterialLayerSetUsage>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<PropertySet>() {
        let f: Fields = vec![
            ("global_id", o.global_id.to_string()),
            ("owner_history", o.owner_history.to_string()),
            ("name", o.name.to_string()),
            ("description", o.description.to_string()),
            ("properties", o.properties.to_string()),
        ];
        out.push((id.id().0.to_string(), "PropertySet", f, std::ptr::eq(ifc.data.get::<PropertySet>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<PropertySingleValue>() {
        let f: Fields = vec![
            ("value", o.value.to_string()),
            ("unit", o.unit.to_string()),
        ];
        out.push((id.id().0.to_string(), "PropertySingleValue", f, std::ptr::eq(ifc.data.get::<PropertySingleValue>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<UnitAssigment>() {
        let f: Fields = vec![
            ("units", o.units.to_string()),
        ];
        out.push((id.id().0.to_string(), "UnitAssigment", f, std::ptr::eq(ifc.data.get::<UnitAssigment>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<ConversionBasedUnit>() {
        let f: Fields = vec![
            ("dimensions", o.dimensions.to_string()),
            ("unit_type", o.unit_type.to_string()),
            ("name", o.name.to_string()),
            ("conversion_factor", o.conversion_factor.to_string()),
        ];
        out.push((id.id().0.to_string(), "ConversionBasedUnit", f, std::ptr::eq(ifc.data.get::<ConversionBasedUnit>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<SiUnit>() {
        let f: Fields = vec![
            ("dimensions", o.dimensions.to_string()),
            ("unit_type", o.unit_type.to_string()),
            ("prefix", o.prefix.to_string()),
            ("name", o.name.to_string()),
        ];
        out.push((id.id().0.to_string(), "SiUnit", f, std::ptr::eq(ifc.data.get::<SiUnit>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<DimensionalExponents>() {
        let f: Fields = vec![
            ("length", o.length.to_string()),
            ("mass", o.mass.to_string()),
            ("time", o.time.to_string()),
            ("electric_current", o.electric_current.to_string()),
            ("thermodynamic_temperature", o.thermodynamic_temperature.to_string()),
            ("amount_of_substance", o.amount_of_substance.to_string()),
            ("luminouse_intensity", o.luminouse_intensity.to_string()),
        ];
        out.push((id.id().0.to_string(), "DimensionalExponents", f, std::ptr::eq(ifc.data.get::<DimensionalExponents>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<MeasureWithUnit>() {
        let f: Fields = vec![
            ("value", o.value.to_string()),
            ("unit", o.unit.to_string()),
        ];
        out.push((id.id().0.to_string(), "MeasureWithUnit", f, std::ptr::eq(ifc.data.get::<MeasureWithUnit>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<DerivedUnit>() {
        let f: Fields = vec![
            ("elements", o.elements.to_string()),
            ("unit_type", o.unit_type.to_string()),
            ("user_defined_type", o.user_defined_type.to_string()),
        ];
        out.push((id.id().0.to_string(), "DerivedUnit", f, std::ptr::eq(ifc.data.get::<DerivedUnit>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<DerivedUnitElement>() {
        let f: Fields = vec![
            ("unit", o.unit.to_string()),
            ("exponent", o.exponent.to_string()),
        ];
        out.push((id.id().0.to_string(), "DerivedUnitElement", f, std::ptr::eq(ifc.data.get::<DerivedUnitElement>(id.clone()), o)));
    }
    for (id, o) in ifc.data.find_all_of_type::<MonetaryUnit>() {
        let f: Fields = vec![
            ("currency", o.currency.to_string()),
        ];
        out.push((id.id().0.to_string(), "MonetaryUnit", f, std::ptr::eq(ifc.data.get::<MonetaryUnit>(id.clone()), o)));
    }
}
