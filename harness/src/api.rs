// generated by tools/genapi.py from spec/Api.tla; do not edit
#![allow(non_snake_case)]
use crate::apival::*;
use ifc_rs::prelude::*;

#[allow(unused_variables)]
pub fn c_Organization(a: &[Arg], ifc: &mut IFC) -> Organization {
    {  Organization::new(ostr(&a[0]), text(&a[1]), ostr(&a[2])) }
}
pub fn s_Organization(ifc: &mut IFC) -> Organization { let a = sample("Organization"); c_Organization(&a, ifc) }
pub fn r_Organization(a: &Arg, ifc: &mut IFC) -> IdOr<Organization> { match form(a) { "value" => IdOr::from(s_Organization(ifc)), "typed" => IdOr::from(typed::<Organization>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Organization>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Organization(i: usize, x: &Arg, o: Organization, ifc: &mut IFC) -> Organization {
    match i {
        1 => { let x0 = r_ActorRole(x, ifc); o.add_role(x0, ifc) },
        2 => match (ty(x),) {
            ("TelecomAddress",) => { let x0 = r_TelecomAddress(x, ifc); o.add_address::<TelecomAddress>(x0, ifc) }
            ("PostalAddress",) => { let x0 = r_PostalAddress(x, ifc); o.add_address::<PostalAddress>(x0, ifc) }
            t => panic!("type {t:?}"),
        },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Application(a: &[Arg], ifc: &mut IFC) -> Application {
    {  Application::new(typed::<Organization>(&a[0]), text(&a[1]), text(&a[2]), text(&a[3])) }
}
pub fn s_Application(ifc: &mut IFC) -> Application { let a = sample("Application"); c_Application(&a, ifc) }
pub fn r_Application(a: &Arg, ifc: &mut IFC) -> IdOr<Application> { match form(a) { "value" => IdOr::from(s_Application(ifc)), "typed" => IdOr::from(typed::<Application>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Application>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Application(i: usize, x: &Arg, o: Application, ifc: &mut IFC) -> Application {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_ActorRole(a: &[Arg], ifc: &mut IFC) -> ActorRole {
    ActorRole { role: e_Role(text(&a[0])), user_defined_role: otext(&a[1]).map(|s| s.into()).into(), description: otext(&a[2]).map(|s| s.into()).into() }
}
pub fn s_ActorRole(ifc: &mut IFC) -> ActorRole { let a = sample("ActorRole"); c_ActorRole(&a, ifc) }
pub fn r_ActorRole(a: &Arg, ifc: &mut IFC) -> IdOr<ActorRole> { match form(a) { "value" => IdOr::from(s_ActorRole(ifc)), "typed" => IdOr::from(typed::<ActorRole>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<ActorRole>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_ActorRole(i: usize, x: &Arg, o: ActorRole, ifc: &mut IFC) -> ActorRole {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_TelecomAddress(a: &[Arg], ifc: &mut IFC) -> TelecomAddress {
    TelecomAddress { purpose: otext(&a[0]).map(|s| s.into()).into(), description: otext(&a[1]).map(|s| s.into()).into(), user_defined_purpose: otext(&a[2]).map(|s| s.into()).into(), pager_number: otext(&a[3]).map(|s| s.into()).into(), homepage_url: otext(&a[4]).map(|s| s.into()).into(), telephone_numbers: None.into(), facsimile_numbers: None.into(), email_addresses: None.into() }
}
pub fn s_TelecomAddress(ifc: &mut IFC) -> TelecomAddress { let a = sample("TelecomAddress"); c_TelecomAddress(&a, ifc) }
pub fn r_TelecomAddress(a: &Arg, ifc: &mut IFC) -> IdOr<TelecomAddress> { match form(a) { "value" => IdOr::from(s_TelecomAddress(ifc)), "typed" => IdOr::from(typed::<TelecomAddress>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<TelecomAddress>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_TelecomAddress(i: usize, x: &Arg, o: TelecomAddress, ifc: &mut IFC) -> TelecomAddress {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_PostalAddress(a: &[Arg], ifc: &mut IFC) -> PostalAddress {
    PostalAddress { purpose: otext(&a[0]).map(|s| s.into()).into(), description: otext(&a[1]).map(|s| s.into()).into(), user_defined_purpose: otext(&a[2]).map(|s| s.into()).into(), internal_location: otext(&a[3]).map(|s| s.into()).into(), postal_box: otext(&a[4]).map(|s| s.into()).into(), region: otext(&a[5]).map(|s| s.into()).into(), postal_code: otext(&a[6]).map(|s| s.into()).into(), country: otext(&a[7]).map(|s| s.into()).into(), address_lines: None.into(), town: None.into() }
}
pub fn s_PostalAddress(ifc: &mut IFC) -> PostalAddress { let a = sample("PostalAddress"); c_PostalAddress(&a, ifc) }
pub fn r_PostalAddress(a: &Arg, ifc: &mut IFC) -> IdOr<PostalAddress> { match form(a) { "value" => IdOr::from(s_PostalAddress(ifc)), "typed" => IdOr::from(typed::<PostalAddress>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<PostalAddress>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_PostalAddress(i: usize, x: &Arg, o: PostalAddress, ifc: &mut IFC) -> PostalAddress {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Person(a: &[Arg], ifc: &mut IFC) -> Person {
    {  Person::empty() }
}
pub fn s_Person(ifc: &mut IFC) -> Person { let a = sample("Person"); c_Person(&a, ifc) }
pub fn r_Person(a: &Arg, ifc: &mut IFC) -> IdOr<Person> { match form(a) { "value" => IdOr::from(s_Person(ifc)), "typed" => IdOr::from(typed::<Person>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Person>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Person(i: usize, x: &Arg, o: Person, ifc: &mut IFC) -> Person {
    match i {
        1 => {  o.id(text(x)) },
        2 => {  o.family_name(text(x)) },
        3 => {  o.given_name(text(x)) },
        4 => {  o.add_middle_name(text(x)) },
        5 => {  o.add_suffix_title(text(x)) },
        6 => {  o.add_prefix_title(text(x)) },
        7 => { let x0 = r_ActorRole(x, ifc); o.add_role(x0, ifc) },
        8 => match (ty(x),) {
            ("TelecomAddress",) => { let x0 = r_TelecomAddress(x, ifc); o.add_address::<TelecomAddress>(x0, ifc) }
            ("PostalAddress",) => { let x0 = r_PostalAddress(x, ifc); o.add_address::<PostalAddress>(x0, ifc) }
            t => panic!("type {t:?}"),
        },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_PersonAndOrganization(a: &[Arg], ifc: &mut IFC) -> PersonAndOrganization {
    {  PersonAndOrganization::new(typed::<Person>(&a[0]), typed::<Organization>(&a[1])) }
}
pub fn s_PersonAndOrganization(ifc: &mut IFC) -> PersonAndOrganization { let a = sample("PersonAndOrganization"); c_PersonAndOrganization(&a, ifc) }
pub fn r_PersonAndOrganization(a: &Arg, ifc: &mut IFC) -> IdOr<PersonAndOrganization> { match form(a) { "value" => IdOr::from(s_PersonAndOrganization(ifc)), "typed" => IdOr::from(typed::<PersonAndOrganization>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<PersonAndOrganization>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_PersonAndOrganization(i: usize, x: &Arg, o: PersonAndOrganization, ifc: &mut IFC) -> PersonAndOrganization {
    match i {
        1 => { let x0 = r_ActorRole(x, ifc); o.add_role(x0, ifc) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_OwnerHistory(a: &[Arg], ifc: &mut IFC) -> OwnerHistory {
    {  OwnerHistory::new(e_ChangeAction(text(&a[0])), time(&a[1])) }
}
pub fn s_OwnerHistory(ifc: &mut IFC) -> OwnerHistory { let a = sample("OwnerHistory"); c_OwnerHistory(&a, ifc) }
pub fn r_OwnerHistory(a: &Arg, ifc: &mut IFC) -> IdOr<OwnerHistory> { match form(a) { "value" => IdOr::from(s_OwnerHistory(ifc)), "typed" => IdOr::from(typed::<OwnerHistory>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<OwnerHistory>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_OwnerHistory(i: usize, x: &Arg, o: OwnerHistory, ifc: &mut IFC) -> OwnerHistory {
    match i {
        1 => { let x0 = r_PersonAndOrganization(x, ifc); o.owning_user(x0, ifc) },
        2 => { let x0 = r_Application(x, ifc); o.owning_application(x0, ifc) },
        3 => {  o.state(e_AccessState(text(x))) },
        4 => {  o.last_modified_date(time(x)) },
        5 => { let x0 = r_PersonAndOrganization(x, ifc); o.last_modifying_user(x0, ifc) },
        6 => { let x0 = r_Application(x, ifc); o.last_modifying_application(x0, ifc) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Project(a: &[Arg], ifc: &mut IFC) -> Project {
    {  Project::new(text(&a[0])) }
}
pub fn s_Project(ifc: &mut IFC) -> Project { let a = sample("Project"); c_Project(&a, ifc) }
pub fn r_Project(a: &Arg, ifc: &mut IFC) -> IdOr<Project> { match form(a) { "value" => IdOr::from(s_Project(ifc)), "typed" => IdOr::from(typed::<Project>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Project>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Project(i: usize, x: &Arg, o: Project, ifc: &mut IFC) -> Project {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.object_type(text(x)) },
        5 => {  o.long_name(text(x)) },
        6 => {  o.phase(text(x)) },
        7 => { let x0 = r_GeometricRepresentationContext(x, ifc); o.add_context(x0, ifc) },
        8 => { let x0 = r_UnitAssigment(x, ifc); o.unit_assignment(x0, ifc) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Site(a: &[Arg], ifc: &mut IFC) -> Site {
    {  Site::new(text(&a[0])) }
}
pub fn s_Site(ifc: &mut IFC) -> Site { let a = sample("Site"); c_Site(&a, ifc) }
pub fn r_Site(a: &Arg, ifc: &mut IFC) -> IdOr<Site> { match form(a) { "value" => IdOr::from(s_Site(ifc)), "typed" => IdOr::from(typed::<Site>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Site>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Site(i: usize, x: &Arg, o: Site, ifc: &mut IFC) -> Site {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.object_type(text(x)) },
        5 => { let x0 = r_LocalPlacement(x, ifc); o.object_placement(x0, ifc) },
        6 => { let x0 = r_ProductDefinitionShape(x, ifc); o.representation(x0, ifc) },
        7 => {  o.long_name(text(x)) },
        8 => {  o.composition_type(e_CompositionTypeEnum(text(x))) },
        9 => {  o.ref_latitude(ints(x)) },
        10 => {  o.ref_longitude(ints(x)) },
        11 => {  o.ref_elevation(real(x)) },
        12 => {  o.land_title_number(text(x)) },
        13 => { let x0 = r_PostalAddress(x, ifc); o.site_address(x0, ifc) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Building(a: &[Arg], ifc: &mut IFC) -> Building {
    {  Building::new(text(&a[0])) }
}
pub fn s_Building(ifc: &mut IFC) -> Building { let a = sample("Building"); c_Building(&a, ifc) }
pub fn r_Building(a: &Arg, ifc: &mut IFC) -> IdOr<Building> { match form(a) { "value" => IdOr::from(s_Building(ifc)), "typed" => IdOr::from(typed::<Building>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Building>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Building(i: usize, x: &Arg, o: Building, ifc: &mut IFC) -> Building {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.object_type(text(x)) },
        5 => { let x0 = r_LocalPlacement(x, ifc); o.object_placement(x0, ifc) },
        6 => { let x0 = r_ProductDefinitionShape(x, ifc); o.representation(x0, ifc) },
        7 => {  o.long_name(text(x)) },
        8 => {  o.composition_type(e_CompositionTypeEnum(text(x))) },
        9 => {  o.elevation_of_ref_height(real(x)) },
        10 => {  o.elevation_of_terrain(real(x)) },
        11 => { let x0 = r_PostalAddress(x, ifc); o.building_address(x0, ifc) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Storey(a: &[Arg], ifc: &mut IFC) -> Storey {
    {  Storey::new(text(&a[0])) }
}
pub fn s_Storey(ifc: &mut IFC) -> Storey { let a = sample("Storey"); c_Storey(&a, ifc) }
pub fn r_Storey(a: &Arg, ifc: &mut IFC) -> IdOr<Storey> { match form(a) { "value" => IdOr::from(s_Storey(ifc)), "typed" => IdOr::from(typed::<Storey>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Storey>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Storey(i: usize, x: &Arg, o: Storey, ifc: &mut IFC) -> Storey {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.object_type(text(x)) },
        5 => { let x0 = r_LocalPlacement(x, ifc); o.object_placement(x0, ifc) },
        6 => { let x0 = r_ProductDefinitionShape(x, ifc); o.representation(x0, ifc) },
        7 => {  o.long_name(text(x)) },
        8 => {  o.composition_type(e_CompositionTypeEnum(text(x))) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Space(a: &[Arg], ifc: &mut IFC) -> Space {
    {  Space::new(text(&a[0])) }
}
pub fn s_Space(ifc: &mut IFC) -> Space { let a = sample("Space"); c_Space(&a, ifc) }
pub fn r_Space(a: &Arg, ifc: &mut IFC) -> IdOr<Space> { match form(a) { "value" => IdOr::from(s_Space(ifc)), "typed" => IdOr::from(typed::<Space>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Space>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Space(i: usize, x: &Arg, o: Space, ifc: &mut IFC) -> Space {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.object_type(text(x)) },
        5 => { let x0 = r_LocalPlacement(x, ifc); o.object_placement(x0, ifc) },
        6 => { let x0 = r_ProductDefinitionShape(x, ifc); o.representation(x0, ifc) },
        7 => {  o.long_name(text(x)) },
        8 => {  o.composition_type(e_CompositionTypeEnum(text(x))) },
        9 => {  o.predefined_type(e_SpaceTypeEnum(text(x))) },
        10 => {  o.elevation_with_flooring(real(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Wall(a: &[Arg], ifc: &mut IFC) -> Wall {
    {  Wall::new(text(&a[0])) }
}
pub fn s_Wall(ifc: &mut IFC) -> Wall { let a = sample("Wall"); c_Wall(&a, ifc) }
pub fn r_Wall(a: &Arg, ifc: &mut IFC) -> IdOr<Wall> { match form(a) { "value" => IdOr::from(s_Wall(ifc)), "typed" => IdOr::from(typed::<Wall>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Wall>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Wall(i: usize, x: &Arg, o: Wall, ifc: &mut IFC) -> Wall {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.object_type(text(x)) },
        5 => { let x0 = r_LocalPlacement(x, ifc); o.object_placement(x0, ifc) },
        6 => { let x0 = r_ProductDefinitionShape(x, ifc); o.representation(x0, ifc) },
        7 => {  o.tag(text(x)) },
        8 => { let x0 = r_WallType(x, ifc); o.predefined_type(x0, ifc) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Slab(a: &[Arg], ifc: &mut IFC) -> Slab {
    {  Slab::new(text(&a[0])) }
}
pub fn s_Slab(ifc: &mut IFC) -> Slab { let a = sample("Slab"); c_Slab(&a, ifc) }
pub fn r_Slab(a: &Arg, ifc: &mut IFC) -> IdOr<Slab> { match form(a) { "value" => IdOr::from(s_Slab(ifc)), "typed" => IdOr::from(typed::<Slab>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Slab>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Slab(i: usize, x: &Arg, o: Slab, ifc: &mut IFC) -> Slab {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.object_type(text(x)) },
        5 => { let x0 = r_LocalPlacement(x, ifc); o.object_placement(x0, ifc) },
        6 => { let x0 = r_ProductDefinitionShape(x, ifc); o.representation(x0, ifc) },
        7 => {  o.tag(text(x)) },
        8 => {  o.predefined_type(e_SlabTypeEnum(text(x))) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Roof(a: &[Arg], ifc: &mut IFC) -> Roof {
    {  Roof::new(text(&a[0])) }
}
pub fn s_Roof(ifc: &mut IFC) -> Roof { let a = sample("Roof"); c_Roof(&a, ifc) }
pub fn r_Roof(a: &Arg, ifc: &mut IFC) -> IdOr<Roof> { match form(a) { "value" => IdOr::from(s_Roof(ifc)), "typed" => IdOr::from(typed::<Roof>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Roof>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Roof(i: usize, x: &Arg, o: Roof, ifc: &mut IFC) -> Roof {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.object_type(text(x)) },
        5 => { let x0 = r_LocalPlacement(x, ifc); o.object_placement(x0, ifc) },
        6 => { let x0 = r_ProductDefinitionShape(x, ifc); o.representation(x0, ifc) },
        7 => {  o.tag(text(x)) },
        8 => {  o.predefined_type(e_RoofTypeEnum(text(x))) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_ShadingDevice(a: &[Arg], ifc: &mut IFC) -> ShadingDevice {
    {  ShadingDevice::new(text(&a[0])) }
}
pub fn s_ShadingDevice(ifc: &mut IFC) -> ShadingDevice { let a = sample("ShadingDevice"); c_ShadingDevice(&a, ifc) }
pub fn r_ShadingDevice(a: &Arg, ifc: &mut IFC) -> IdOr<ShadingDevice> { match form(a) { "value" => IdOr::from(s_ShadingDevice(ifc)), "typed" => IdOr::from(typed::<ShadingDevice>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<ShadingDevice>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_ShadingDevice(i: usize, x: &Arg, o: ShadingDevice, ifc: &mut IFC) -> ShadingDevice {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.object_type(text(x)) },
        5 => { let x0 = r_LocalPlacement(x, ifc); o.object_placement(x0, ifc) },
        6 => { let x0 = r_ProductDefinitionShape(x, ifc); o.representation(x0, ifc) },
        7 => {  o.tag(text(x)) },
        8 => {  o.predefined_type(e_ShadingDeviceTypeEnum(text(x))) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_OpeningElement(a: &[Arg], ifc: &mut IFC) -> OpeningElement {
    {  OpeningElement::new(text(&a[0])) }
}
pub fn s_OpeningElement(ifc: &mut IFC) -> OpeningElement { let a = sample("OpeningElement"); c_OpeningElement(&a, ifc) }
pub fn r_OpeningElement(a: &Arg, ifc: &mut IFC) -> IdOr<OpeningElement> { match form(a) { "value" => IdOr::from(s_OpeningElement(ifc)), "typed" => IdOr::from(typed::<OpeningElement>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<OpeningElement>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_OpeningElement(i: usize, x: &Arg, o: OpeningElement, ifc: &mut IFC) -> OpeningElement {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.object_type(text(x)) },
        5 => { let x0 = r_LocalPlacement(x, ifc); o.object_placement(x0, ifc) },
        6 => { let x0 = r_ProductDefinitionShape(x, ifc); o.representation(x0, ifc) },
        7 => {  o.tag(text(x)) },
        8 => {  o.predefined_type(e_OpeningElementTypeEnum(text(x))) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Door(a: &[Arg], ifc: &mut IFC) -> Door {
    {  Door::new(text(&a[0])) }
}
pub fn s_Door(ifc: &mut IFC) -> Door { let a = sample("Door"); c_Door(&a, ifc) }
pub fn r_Door(a: &Arg, ifc: &mut IFC) -> IdOr<Door> { match form(a) { "value" => IdOr::from(s_Door(ifc)), "typed" => IdOr::from(typed::<Door>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Door>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Door(i: usize, x: &Arg, o: Door, ifc: &mut IFC) -> Door {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.object_type(text(x)) },
        5 => { let x0 = r_LocalPlacement(x, ifc); o.object_placement(x0, ifc) },
        6 => { let x0 = r_ProductDefinitionShape(x, ifc); o.representation(x0, ifc) },
        7 => {  o.tag(text(x)) },
        8 => {  o.overall_height(real(x)) },
        9 => {  o.overall_width(real(x)) },
        10 => {  o.predefined_type(e_DoorTypeEnum(text(x))) },
        11 => {  o.operation_type(e_DoorOperationTypeEnum(text(x))) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Window(a: &[Arg], ifc: &mut IFC) -> Window {
    {  Window::new(text(&a[0])) }
}
pub fn s_Window(ifc: &mut IFC) -> Window { let a = sample("Window"); c_Window(&a, ifc) }
pub fn r_Window(a: &Arg, ifc: &mut IFC) -> IdOr<Window> { match form(a) { "value" => IdOr::from(s_Window(ifc)), "typed" => IdOr::from(typed::<Window>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Window>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Window(i: usize, x: &Arg, o: Window, ifc: &mut IFC) -> Window {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.object_type(text(x)) },
        5 => { let x0 = r_LocalPlacement(x, ifc); o.object_placement(x0, ifc) },
        6 => { let x0 = r_ProductDefinitionShape(x, ifc); o.representation(x0, ifc) },
        7 => {  o.tag(text(x)) },
        8 => {  o.overall_height(real(x)) },
        9 => {  o.overall_width(real(x)) },
        10 => {  o.predefined_type(e_WindowTypeEnum(text(x))) },
        11 => {  o.partitioning_type(e_WindowPartitioningTypeEnum(text(x))) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_WallType(a: &[Arg], ifc: &mut IFC) -> WallType {
    {  WallType::new(text(&a[0]), e_WallTypeEnum(text(&a[1]))) }
}
pub fn s_WallType(ifc: &mut IFC) -> WallType { let a = sample("WallType"); c_WallType(&a, ifc) }
pub fn r_WallType(a: &Arg, ifc: &mut IFC) -> IdOr<WallType> { match form(a) { "value" => IdOr::from(s_WallType(ifc)), "typed" => IdOr::from(typed::<WallType>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<WallType>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_WallType(i: usize, x: &Arg, o: WallType, ifc: &mut IFC) -> WallType {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.tag(text(x)) },
        5 => {  o.element_type(text(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_SlabType(a: &[Arg], ifc: &mut IFC) -> SlabType {
    {  SlabType::new(text(&a[0]), e_SlabTypeEnum(text(&a[1]))) }
}
pub fn s_SlabType(ifc: &mut IFC) -> SlabType { let a = sample("SlabType"); c_SlabType(&a, ifc) }
pub fn r_SlabType(a: &Arg, ifc: &mut IFC) -> IdOr<SlabType> { match form(a) { "value" => IdOr::from(s_SlabType(ifc)), "typed" => IdOr::from(typed::<SlabType>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<SlabType>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_SlabType(i: usize, x: &Arg, o: SlabType, ifc: &mut IFC) -> SlabType {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.tag(text(x)) },
        5 => {  o.element_type(text(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_RoofType(a: &[Arg], ifc: &mut IFC) -> RoofType {
    {  RoofType::new(text(&a[0]), e_RoofTypeEnum(text(&a[1]))) }
}
pub fn s_RoofType(ifc: &mut IFC) -> RoofType { let a = sample("RoofType"); c_RoofType(&a, ifc) }
pub fn r_RoofType(a: &Arg, ifc: &mut IFC) -> IdOr<RoofType> { match form(a) { "value" => IdOr::from(s_RoofType(ifc)), "typed" => IdOr::from(typed::<RoofType>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<RoofType>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_RoofType(i: usize, x: &Arg, o: RoofType, ifc: &mut IFC) -> RoofType {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.tag(text(x)) },
        5 => {  o.element_type(text(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_ShadingDeviceType(a: &[Arg], ifc: &mut IFC) -> ShadingDeviceType {
    {  ShadingDeviceType::new(text(&a[0]), e_ShadingDeviceTypeEnum(text(&a[1]))) }
}
pub fn s_ShadingDeviceType(ifc: &mut IFC) -> ShadingDeviceType { let a = sample("ShadingDeviceType"); c_ShadingDeviceType(&a, ifc) }
pub fn r_ShadingDeviceType(a: &Arg, ifc: &mut IFC) -> IdOr<ShadingDeviceType> { match form(a) { "value" => IdOr::from(s_ShadingDeviceType(ifc)), "typed" => IdOr::from(typed::<ShadingDeviceType>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<ShadingDeviceType>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_ShadingDeviceType(i: usize, x: &Arg, o: ShadingDeviceType, ifc: &mut IFC) -> ShadingDeviceType {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.tag(text(x)) },
        5 => {  o.element_type(text(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_SpaceType(a: &[Arg], ifc: &mut IFC) -> SpaceType {
    {  SpaceType::new(text(&a[0]), e_SpaceTypeEnum(text(&a[1]))) }
}
pub fn s_SpaceType(ifc: &mut IFC) -> SpaceType { let a = sample("SpaceType"); c_SpaceType(&a, ifc) }
pub fn r_SpaceType(a: &Arg, ifc: &mut IFC) -> IdOr<SpaceType> { match form(a) { "value" => IdOr::from(s_SpaceType(ifc)), "typed" => IdOr::from(typed::<SpaceType>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<SpaceType>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_SpaceType(i: usize, x: &Arg, o: SpaceType, ifc: &mut IFC) -> SpaceType {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.tag(text(x)) },
        5 => {  o.element_type(text(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_DoorType(a: &[Arg], ifc: &mut IFC) -> DoorType {
    {  DoorType::new(text(&a[0]), e_DoorTypeEnum(text(&a[1])), e_DoorOperationTypeEnum(text(&a[2]))) }
}
pub fn s_DoorType(ifc: &mut IFC) -> DoorType { let a = sample("DoorType"); c_DoorType(&a, ifc) }
pub fn r_DoorType(a: &Arg, ifc: &mut IFC) -> IdOr<DoorType> { match form(a) { "value" => IdOr::from(s_DoorType(ifc)), "typed" => IdOr::from(typed::<DoorType>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<DoorType>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_DoorType(i: usize, x: &Arg, o: DoorType, ifc: &mut IFC) -> DoorType {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.tag(text(x)) },
        5 => {  o.element_type(text(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_WindowType(a: &[Arg], ifc: &mut IFC) -> WindowType {
    {  WindowType::new(text(&a[0]), e_WindowTypeEnum(text(&a[1])), e_WindowPartitioningTypeEnum(text(&a[2]))) }
}
pub fn s_WindowType(ifc: &mut IFC) -> WindowType { let a = sample("WindowType"); c_WindowType(&a, ifc) }
pub fn r_WindowType(a: &Arg, ifc: &mut IFC) -> IdOr<WindowType> { match form(a) { "value" => IdOr::from(s_WindowType(ifc)), "typed" => IdOr::from(typed::<WindowType>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<WindowType>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_WindowType(i: usize, x: &Arg, o: WindowType, ifc: &mut IFC) -> WindowType {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.tag(text(x)) },
        5 => {  o.element_type(text(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_RelAggregates(a: &[Arg], ifc: &mut IFC) -> RelAggregates {
    {  RelAggregates::new(text(&a[0]), id(&a[1]), ids(&a[2])) }
}
pub fn s_RelAggregates(ifc: &mut IFC) -> RelAggregates { let a = sample("RelAggregates"); c_RelAggregates(&a, ifc) }
pub fn r_RelAggregates(a: &Arg, ifc: &mut IFC) -> IdOr<RelAggregates> { match form(a) { "value" => IdOr::from(s_RelAggregates(ifc)), "typed" => IdOr::from(typed::<RelAggregates>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<RelAggregates>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_RelAggregates(i: usize, x: &Arg, o: RelAggregates, ifc: &mut IFC) -> RelAggregates {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_RelAssociatesMaterial(a: &[Arg], ifc: &mut IFC) -> RelAssociatesMaterial {
    match (ty(&a[1]),) {
            ("MaterialLayerSetUsage",) => { let x0 = text(&a[0]); let x1 = r_MaterialLayerSetUsage(&a[1], ifc); RelAssociatesMaterial::new::<MaterialLayerSetUsage>(x0, x1, ifc) }
            ("MaterialLayerSet",) => { let x0 = text(&a[0]); let x1 = r_MaterialLayerSet(&a[1], ifc); RelAssociatesMaterial::new::<MaterialLayerSet>(x0, x1, ifc) }
            ("MaterialConstituentSet",) => { let x0 = text(&a[0]); let x1 = r_MaterialConstituentSet(&a[1], ifc); RelAssociatesMaterial::new::<MaterialConstituentSet>(x0, x1, ifc) }
            ("Material",) => { let x0 = text(&a[0]); let x1 = r_Material(&a[1], ifc); RelAssociatesMaterial::new::<Material>(x0, x1, ifc) }
            t => panic!("type {t:?}"),
        }
}
pub fn s_RelAssociatesMaterial(ifc: &mut IFC) -> RelAssociatesMaterial { let a = sample("RelAssociatesMaterial"); c_RelAssociatesMaterial(&a, ifc) }
pub fn r_RelAssociatesMaterial(a: &Arg, ifc: &mut IFC) -> IdOr<RelAssociatesMaterial> { match form(a) { "value" => IdOr::from(s_RelAssociatesMaterial(ifc)), "typed" => IdOr::from(typed::<RelAssociatesMaterial>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<RelAssociatesMaterial>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_RelAssociatesMaterial(i: usize, x: &Arg, o: RelAssociatesMaterial, ifc: &mut IFC) -> RelAssociatesMaterial {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => match ty(x) { "Door" => { let x0 = r_Door(x, ifc); RelAssociatesBuilder::<Door>::relate_obj(o, x0, ifc) } "Window" => { let x0 = r_Window(x, ifc); RelAssociatesBuilder::<Window>::relate_obj(o, x0, ifc) } "Slab" => { let x0 = r_Slab(x, ifc); RelAssociatesBuilder::<Slab>::relate_obj(o, x0, ifc) } "Roof" => { let x0 = r_Roof(x, ifc); RelAssociatesBuilder::<Roof>::relate_obj(o, x0, ifc) } "Wall" => { let x0 = r_Wall(x, ifc); RelAssociatesBuilder::<Wall>::relate_obj(o, x0, ifc) } "ShadingDevice" => { let x0 = r_ShadingDevice(x, ifc); RelAssociatesBuilder::<ShadingDevice>::relate_obj(o, x0, ifc) } "DoorType" => { let x0 = r_DoorType(x, ifc); RelAssociatesBuilder::<DoorType>::relate_obj(o, x0, ifc) } "WindowType" => { let x0 = r_WindowType(x, ifc); RelAssociatesBuilder::<WindowType>::relate_obj(o, x0, ifc) } "SlabType" => { let x0 = r_SlabType(x, ifc); RelAssociatesBuilder::<SlabType>::relate_obj(o, x0, ifc) } "RoofType" => { let x0 = r_RoofType(x, ifc); RelAssociatesBuilder::<RoofType>::relate_obj(o, x0, ifc) } "WallType" => { let x0 = r_WallType(x, ifc); RelAssociatesBuilder::<WallType>::relate_obj(o, x0, ifc) } "ShadingDeviceType" => { let x0 = r_ShadingDeviceType(x, ifc); RelAssociatesBuilder::<ShadingDeviceType>::relate_obj(o, x0, ifc) } t => panic!("type {t:?}") },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_RelContainedInSpatialStructure(a: &[Arg], ifc: &mut IFC) -> RelContainedInSpatialStructure {
    match (ty(&a[1]),) {
            ("Storey",) => { let x0 = text(&a[0]); let x1 = r_Storey(&a[1], ifc); RelContainedInSpatialStructure::new::<Storey>(x0, x1, ifc) }
            ("Building",) => { let x0 = text(&a[0]); let x1 = r_Building(&a[1], ifc); RelContainedInSpatialStructure::new::<Building>(x0, x1, ifc) }
            ("Site",) => { let x0 = text(&a[0]); let x1 = r_Site(&a[1], ifc); RelContainedInSpatialStructure::new::<Site>(x0, x1, ifc) }
            ("Wall",) => { let x0 = text(&a[0]); let x1 = r_Wall(&a[1], ifc); RelContainedInSpatialStructure::new::<Wall>(x0, x1, ifc) }
            ("Slab",) => { let x0 = text(&a[0]); let x1 = r_Slab(&a[1], ifc); RelContainedInSpatialStructure::new::<Slab>(x0, x1, ifc) }
            ("Window",) => { let x0 = text(&a[0]); let x1 = r_Window(&a[1], ifc); RelContainedInSpatialStructure::new::<Window>(x0, x1, ifc) }
            ("Door",) => { let x0 = text(&a[0]); let x1 = r_Door(&a[1], ifc); RelContainedInSpatialStructure::new::<Door>(x0, x1, ifc) }
            ("OpeningElement",) => { let x0 = text(&a[0]); let x1 = r_OpeningElement(&a[1], ifc); RelContainedInSpatialStructure::new::<OpeningElement>(x0, x1, ifc) }
            t => panic!("type {t:?}"),
        }
}
pub fn s_RelContainedInSpatialStructure(ifc: &mut IFC) -> RelContainedInSpatialStructure { let a = sample("RelContainedInSpatialStructure"); c_RelContainedInSpatialStructure(&a, ifc) }
pub fn r_RelContainedInSpatialStructure(a: &Arg, ifc: &mut IFC) -> IdOr<RelContainedInSpatialStructure> { match form(a) { "value" => IdOr::from(s_RelContainedInSpatialStructure(ifc)), "typed" => IdOr::from(typed::<RelContainedInSpatialStructure>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<RelContainedInSpatialStructure>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_RelContainedInSpatialStructure(i: usize, x: &Arg, o: RelContainedInSpatialStructure, ifc: &mut IFC) -> RelContainedInSpatialStructure {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => match (ty(x),) {
            ("Wall",) => { let x0 = r_Wall(x, ifc); o.relate_structure::<Wall>(x0, ifc) }
            ("Slab",) => { let x0 = r_Slab(x, ifc); o.relate_structure::<Slab>(x0, ifc) }
            ("Roof",) => { let x0 = r_Roof(x, ifc); o.relate_structure::<Roof>(x0, ifc) }
            ("Window",) => { let x0 = r_Window(x, ifc); o.relate_structure::<Window>(x0, ifc) }
            ("Door",) => { let x0 = r_Door(x, ifc); o.relate_structure::<Door>(x0, ifc) }
            ("ShadingDevice",) => { let x0 = r_ShadingDevice(x, ifc); o.relate_structure::<ShadingDevice>(x0, ifc) }
            ("OpeningElement",) => { let x0 = r_OpeningElement(x, ifc); o.relate_structure::<OpeningElement>(x0, ifc) }
            ("Storey",) => { let x0 = r_Storey(x, ifc); o.relate_structure::<Storey>(x0, ifc) }
            ("Building",) => { let x0 = r_Building(x, ifc); o.relate_structure::<Building>(x0, ifc) }
            ("Site",) => { let x0 = r_Site(x, ifc); o.relate_structure::<Site>(x0, ifc) }
            t => panic!("type {t:?}"),
        },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_RelDeclares(a: &[Arg], ifc: &mut IFC) -> RelDeclares {
    { let x0 = text(&a[0]); let x1 = r_Project(&a[1], ifc); RelDeclares::new(x0, x1, ifc) }
}
pub fn s_RelDeclares(ifc: &mut IFC) -> RelDeclares { let a = sample("RelDeclares"); c_RelDeclares(&a, ifc) }
pub fn r_RelDeclares(a: &Arg, ifc: &mut IFC) -> IdOr<RelDeclares> { match form(a) { "value" => IdOr::from(s_RelDeclares(ifc)), "typed" => IdOr::from(typed::<RelDeclares>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<RelDeclares>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_RelDeclares(i: usize, x: &Arg, o: RelDeclares, ifc: &mut IFC) -> RelDeclares {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => match (ty(x),) {
            ("WallType",) => { let x0 = r_WallType(x, ifc); o.relate_definition::<WallType>(x0, ifc) }
            ("SlabType",) => { let x0 = r_SlabType(x, ifc); o.relate_definition::<SlabType>(x0, ifc) }
            ("PropertySet",) => { let x0 = r_PropertySet(x, ifc); o.relate_definition::<PropertySet>(x0, ifc) }
            t => panic!("type {t:?}"),
        },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_RelDefinesByProperties(a: &[Arg], ifc: &mut IFC) -> RelDefinesByProperties {
    { let x0 = text(&a[0]); let x1 = r_PropertySet(&a[1], ifc); RelDefinesByProperties::new::<PropertySet>(x0, x1, ifc) }
}
pub fn s_RelDefinesByProperties(ifc: &mut IFC) -> RelDefinesByProperties { let a = sample("RelDefinesByProperties"); c_RelDefinesByProperties(&a, ifc) }
pub fn r_RelDefinesByProperties(a: &Arg, ifc: &mut IFC) -> IdOr<RelDefinesByProperties> { match form(a) { "value" => IdOr::from(s_RelDefinesByProperties(ifc)), "typed" => IdOr::from(typed::<RelDefinesByProperties>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<RelDefinesByProperties>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_RelDefinesByProperties(i: usize, x: &Arg, o: RelDefinesByProperties, ifc: &mut IFC) -> RelDefinesByProperties {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => match (ty(x),) {
            ("Wall",) => { let x0 = r_Wall(x, ifc); o.relate_obj::<Wall>(x0, ifc) }
            ("Slab",) => { let x0 = r_Slab(x, ifc); o.relate_obj::<Slab>(x0, ifc) }
            ("Storey",) => { let x0 = r_Storey(x, ifc); o.relate_obj::<Storey>(x0, ifc) }
            ("Window",) => { let x0 = r_Window(x, ifc); o.relate_obj::<Window>(x0, ifc) }
            ("Space",) => { let x0 = r_Space(x, ifc); o.relate_obj::<Space>(x0, ifc) }
            t => panic!("type {t:?}"),
        },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_RelDefinesByType(a: &[Arg], ifc: &mut IFC) -> RelDefinesByType {
    match (ty(&a[1]),) {
            ("WallType",) => { let x0 = text(&a[0]); let x1 = r_WallType(&a[1], ifc); RelDefinesByType::new::<WallType>(x0, x1, ifc) }
            ("SlabType",) => { let x0 = text(&a[0]); let x1 = r_SlabType(&a[1], ifc); RelDefinesByType::new::<SlabType>(x0, x1, ifc) }
            ("RoofType",) => { let x0 = text(&a[0]); let x1 = r_RoofType(&a[1], ifc); RelDefinesByType::new::<RoofType>(x0, x1, ifc) }
            ("WindowType",) => { let x0 = text(&a[0]); let x1 = r_WindowType(&a[1], ifc); RelDefinesByType::new::<WindowType>(x0, x1, ifc) }
            ("DoorType",) => { let x0 = text(&a[0]); let x1 = r_DoorType(&a[1], ifc); RelDefinesByType::new::<DoorType>(x0, x1, ifc) }
            ("SpaceType",) => { let x0 = text(&a[0]); let x1 = r_SpaceType(&a[1], ifc); RelDefinesByType::new::<SpaceType>(x0, x1, ifc) }
            ("ShadingDeviceType",) => { let x0 = text(&a[0]); let x1 = r_ShadingDeviceType(&a[1], ifc); RelDefinesByType::new::<ShadingDeviceType>(x0, x1, ifc) }
            t => panic!("type {t:?}"),
        }
}
pub fn s_RelDefinesByType(ifc: &mut IFC) -> RelDefinesByType { let a = sample("RelDefinesByType"); c_RelDefinesByType(&a, ifc) }
pub fn r_RelDefinesByType(a: &Arg, ifc: &mut IFC) -> IdOr<RelDefinesByType> { match form(a) { "value" => IdOr::from(s_RelDefinesByType(ifc)), "typed" => IdOr::from(typed::<RelDefinesByType>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<RelDefinesByType>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_RelDefinesByType(i: usize, x: &Arg, o: RelDefinesByType, ifc: &mut IFC) -> RelDefinesByType {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => match (ty(x),) {
            ("Wall",) => { let x0 = r_Wall(x, ifc); o.relate_obj::<Wall>(x0, ifc) }
            ("Slab",) => { let x0 = r_Slab(x, ifc); o.relate_obj::<Slab>(x0, ifc) }
            ("Roof",) => { let x0 = r_Roof(x, ifc); o.relate_obj::<Roof>(x0, ifc) }
            ("Window",) => { let x0 = r_Window(x, ifc); o.relate_obj::<Window>(x0, ifc) }
            ("Door",) => { let x0 = r_Door(x, ifc); o.relate_obj::<Door>(x0, ifc) }
            ("Space",) => { let x0 = r_Space(x, ifc); o.relate_obj::<Space>(x0, ifc) }
            ("ShadingDevice",) => { let x0 = r_ShadingDevice(x, ifc); o.relate_obj::<ShadingDevice>(x0, ifc) }
            t => panic!("type {t:?}"),
        },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_RelFillsElement(a: &[Arg], ifc: &mut IFC) -> RelFillsElement {
    match (ty(&a[2]),) {
            ("Window",) => { let x0 = text(&a[0]); let x1 = r_OpeningElement(&a[1], ifc); let x2 = r_Window(&a[2], ifc); RelFillsElement::new::<Window>(x0, x1, x2, ifc) }
            ("Door",) => { let x0 = text(&a[0]); let x1 = r_OpeningElement(&a[1], ifc); let x2 = r_Door(&a[2], ifc); RelFillsElement::new::<Door>(x0, x1, x2, ifc) }
            ("Wall",) => { let x0 = text(&a[0]); let x1 = r_OpeningElement(&a[1], ifc); let x2 = r_Wall(&a[2], ifc); RelFillsElement::new::<Wall>(x0, x1, x2, ifc) }
            ("Slab",) => { let x0 = text(&a[0]); let x1 = r_OpeningElement(&a[1], ifc); let x2 = r_Slab(&a[2], ifc); RelFillsElement::new::<Slab>(x0, x1, x2, ifc) }
            ("Building",) => { let x0 = text(&a[0]); let x1 = r_OpeningElement(&a[1], ifc); let x2 = r_Building(&a[2], ifc); RelFillsElement::new::<Building>(x0, x1, x2, ifc) }
            t => panic!("type {t:?}"),
        }
}
pub fn s_RelFillsElement(ifc: &mut IFC) -> RelFillsElement { let a = sample("RelFillsElement"); c_RelFillsElement(&a, ifc) }
pub fn r_RelFillsElement(a: &Arg, ifc: &mut IFC) -> IdOr<RelFillsElement> { match form(a) { "value" => IdOr::from(s_RelFillsElement(ifc)), "typed" => IdOr::from(typed::<RelFillsElement>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<RelFillsElement>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_RelFillsElement(i: usize, x: &Arg, o: RelFillsElement, ifc: &mut IFC) -> RelFillsElement {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_RelVoidsElement(a: &[Arg], ifc: &mut IFC) -> RelVoidsElement {
    match (ty(&a[1]),) {
            ("Wall",) => { let x0 = text(&a[0]); let x1 = r_Wall(&a[1], ifc); let x2 = r_OpeningElement(&a[2], ifc); RelVoidsElement::new::<Wall>(x0, x1, x2, ifc) }
            ("Slab",) => { let x0 = text(&a[0]); let x1 = r_Slab(&a[1], ifc); let x2 = r_OpeningElement(&a[2], ifc); RelVoidsElement::new::<Slab>(x0, x1, x2, ifc) }
            ("Window",) => { let x0 = text(&a[0]); let x1 = r_Window(&a[1], ifc); let x2 = r_OpeningElement(&a[2], ifc); RelVoidsElement::new::<Window>(x0, x1, x2, ifc) }
            ("Building",) => { let x0 = text(&a[0]); let x1 = r_Building(&a[1], ifc); let x2 = r_OpeningElement(&a[2], ifc); RelVoidsElement::new::<Building>(x0, x1, x2, ifc) }
            t => panic!("type {t:?}"),
        }
}
pub fn s_RelVoidsElement(ifc: &mut IFC) -> RelVoidsElement { let a = sample("RelVoidsElement"); c_RelVoidsElement(&a, ifc) }
pub fn r_RelVoidsElement(a: &Arg, ifc: &mut IFC) -> IdOr<RelVoidsElement> { match form(a) { "value" => IdOr::from(s_RelVoidsElement(ifc)), "typed" => IdOr::from(typed::<RelVoidsElement>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<RelVoidsElement>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_RelVoidsElement(i: usize, x: &Arg, o: RelVoidsElement, ifc: &mut IFC) -> RelVoidsElement {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_MappedItem(a: &[Arg], ifc: &mut IFC) -> MappedItem {
    match (ty(&a[1]),) {
            ("CartesianTransformationOperator3DnonUniform",) => { let x0 = r_RepresentationMap(&a[0], ifc); let x1 = r_CartesianTransformationOperator3DnonUniform(&a[1], ifc); MappedItem::new::<CartesianTransformationOperator3DnonUniform>(x0, x1, ifc) }
            ("CartesianTransformationOperator3D",) => { let x0 = r_RepresentationMap(&a[0], ifc); let x1 = r_CartesianTransformationOperator3D(&a[1], ifc); MappedItem::new::<CartesianTransformationOperator3D>(x0, x1, ifc) }
            t => panic!("type {t:?}"),
        }
}
pub fn s_MappedItem(ifc: &mut IFC) -> MappedItem { let a = sample("MappedItem"); c_MappedItem(&a, ifc) }
pub fn r_MappedItem(a: &Arg, ifc: &mut IFC) -> IdOr<MappedItem> { match form(a) { "value" => IdOr::from(s_MappedItem(ifc)), "typed" => IdOr::from(typed::<MappedItem>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<MappedItem>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_MappedItem(i: usize, x: &Arg, o: MappedItem, ifc: &mut IFC) -> MappedItem {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_RepresentationMap(a: &[Arg], ifc: &mut IFC) -> RepresentationMap {
    { let x0 = r_Axis3D(&a[0], ifc); let x1 = r_ShapeRepresentation(&a[1], ifc); RepresentationMap::new(x0, x1, ifc) }
}
pub fn s_RepresentationMap(ifc: &mut IFC) -> RepresentationMap { let a = sample("RepresentationMap"); c_RepresentationMap(&a, ifc) }
pub fn r_RepresentationMap(a: &Arg, ifc: &mut IFC) -> IdOr<RepresentationMap> { match form(a) { "value" => IdOr::from(s_RepresentationMap(ifc)), "typed" => IdOr::from(typed::<RepresentationMap>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<RepresentationMap>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_RepresentationMap(i: usize, x: &Arg, o: RepresentationMap, ifc: &mut IFC) -> RepresentationMap {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_ArbitraryClosedProfileDef(a: &[Arg], ifc: &mut IFC) -> ArbitraryClosedProfileDef {
    match (ty(&a[1]),) {
            ("IndexedPolyCurve",) => { let x0 = e_ProfileType(text(&a[0])); let x1 = r_IndexedPolyCurve(&a[1], ifc); ArbitraryClosedProfileDef::new::<IndexedPolyCurve>(x0, x1, ifc) }
            ("PolyLine",) => { let x0 = e_ProfileType(text(&a[0])); let x1 = r_PolyLine(&a[1], ifc); ArbitraryClosedProfileDef::new::<PolyLine>(x0, x1, ifc) }
            t => panic!("type {t:?}"),
        }
}
pub fn s_ArbitraryClosedProfileDef(ifc: &mut IFC) -> ArbitraryClosedProfileDef { let a = sample("ArbitraryClosedProfileDef"); c_ArbitraryClosedProfileDef(&a, ifc) }
pub fn r_ArbitraryClosedProfileDef(a: &Arg, ifc: &mut IFC) -> IdOr<ArbitraryClosedProfileDef> { match form(a) { "value" => IdOr::from(s_ArbitraryClosedProfileDef(ifc)), "typed" => IdOr::from(typed::<ArbitraryClosedProfileDef>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<ArbitraryClosedProfileDef>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_ArbitraryClosedProfileDef(i: usize, x: &Arg, o: ArbitraryClosedProfileDef, ifc: &mut IFC) -> ArbitraryClosedProfileDef {
    match i {
        1 => {  o.profile_name(text(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_RectangleProfileDef(a: &[Arg], ifc: &mut IFC) -> RectangleProfileDef {
    {  RectangleProfileDef::new(e_ProfileType(text(&a[0])), real(&a[1]), real(&a[2])) }
}
pub fn s_RectangleProfileDef(ifc: &mut IFC) -> RectangleProfileDef { let a = sample("RectangleProfileDef"); c_RectangleProfileDef(&a, ifc) }
pub fn r_RectangleProfileDef(a: &Arg, ifc: &mut IFC) -> IdOr<RectangleProfileDef> { match form(a) { "value" => IdOr::from(s_RectangleProfileDef(ifc)), "typed" => IdOr::from(typed::<RectangleProfileDef>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<RectangleProfileDef>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_RectangleProfileDef(i: usize, x: &Arg, o: RectangleProfileDef, ifc: &mut IFC) -> RectangleProfileDef {
    match i {
        1 => {  o.profile_name(text(x)) },
        2 => match (ty(x),) {
            ("Axis2D",) => { let x0 = r_Axis2D(x, ifc); o.position::<Axis2D>(x0, ifc) }
            ("Axis3D",) => { let x0 = r_Axis3D(x, ifc); o.position::<Axis3D>(x0, ifc) }
            t => panic!("type {t:?}"),
        },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Axis2D(a: &[Arg], ifc: &mut IFC) -> Axis2D {
    { let x0 = s_Point2D(ifc); Axis2D::new(x0, ifc) }
}
pub fn s_Axis2D(ifc: &mut IFC) -> Axis2D { let a = sample("Axis2D"); c_Axis2D(&a, ifc) }
pub fn r_Axis2D(a: &Arg, ifc: &mut IFC) -> IdOr<Axis2D> { match form(a) { "value" => IdOr::from(s_Axis2D(ifc)), "typed" => IdOr::from(typed::<Axis2D>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Axis2D>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Axis2D(i: usize, x: &Arg, o: Axis2D, ifc: &mut IFC) -> Axis2D {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Axis3D(a: &[Arg], ifc: &mut IFC) -> Axis3D {
    { let x0 = s_Point3D(ifc); Axis3D::new(x0, ifc) }
}
pub fn s_Axis3D(ifc: &mut IFC) -> Axis3D { let a = sample("Axis3D"); c_Axis3D(&a, ifc) }
pub fn r_Axis3D(a: &Arg, ifc: &mut IFC) -> IdOr<Axis3D> { match form(a) { "value" => IdOr::from(s_Axis3D(ifc)), "typed" => IdOr::from(typed::<Axis3D>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Axis3D>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Axis3D(i: usize, x: &Arg, o: Axis3D, ifc: &mut IFC) -> Axis3D {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Direction2D(a: &[Arg], ifc: &mut IFC) -> Direction2D {
    {  Direction2D::from(vec2(&a[0])) }
}
pub fn s_Direction2D(ifc: &mut IFC) -> Direction2D { let a = sample("Direction2D"); c_Direction2D(&a, ifc) }
pub fn r_Direction2D(a: &Arg, ifc: &mut IFC) -> IdOr<Direction2D> { match form(a) { "value" => IdOr::from(s_Direction2D(ifc)), "typed" => IdOr::from(typed::<Direction2D>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Direction2D>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Direction2D(i: usize, x: &Arg, o: Direction2D, ifc: &mut IFC) -> Direction2D {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Direction3D(a: &[Arg], ifc: &mut IFC) -> Direction3D {
    {  Direction3D::from(vec3(&a[0])) }
}
pub fn s_Direction3D(ifc: &mut IFC) -> Direction3D { let a = sample("Direction3D"); c_Direction3D(&a, ifc) }
pub fn r_Direction3D(a: &Arg, ifc: &mut IFC) -> IdOr<Direction3D> { match form(a) { "value" => IdOr::from(s_Direction3D(ifc)), "typed" => IdOr::from(typed::<Direction3D>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Direction3D>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Direction3D(i: usize, x: &Arg, o: Direction3D, ifc: &mut IFC) -> Direction3D {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Point2D(a: &[Arg], ifc: &mut IFC) -> Point2D {
    {  Point2D::from(vec2(&a[0])) }
}
pub fn s_Point2D(ifc: &mut IFC) -> Point2D { let a = sample("Point2D"); c_Point2D(&a, ifc) }
pub fn r_Point2D(a: &Arg, ifc: &mut IFC) -> IdOr<Point2D> { match form(a) { "value" => IdOr::from(s_Point2D(ifc)), "typed" => IdOr::from(typed::<Point2D>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Point2D>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Point2D(i: usize, x: &Arg, o: Point2D, ifc: &mut IFC) -> Point2D {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Point3D(a: &[Arg], ifc: &mut IFC) -> Point3D {
    {  Point3D::from(vec3(&a[0])) }
}
pub fn s_Point3D(ifc: &mut IFC) -> Point3D { let a = sample("Point3D"); c_Point3D(&a, ifc) }
pub fn r_Point3D(a: &Arg, ifc: &mut IFC) -> IdOr<Point3D> { match form(a) { "value" => IdOr::from(s_Point3D(ifc)), "typed" => IdOr::from(typed::<Point3D>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Point3D>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Point3D(i: usize, x: &Arg, o: Point3D, ifc: &mut IFC) -> Point3D {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_PointList2D(a: &[Arg], ifc: &mut IFC) -> PointList2D {
    {  PointList2D::new(vec2s(&a[0])) }
}
pub fn s_PointList2D(ifc: &mut IFC) -> PointList2D { let a = sample("PointList2D"); c_PointList2D(&a, ifc) }
pub fn r_PointList2D(a: &Arg, ifc: &mut IFC) -> IdOr<PointList2D> { match form(a) { "value" => IdOr::from(s_PointList2D(ifc)), "typed" => IdOr::from(typed::<PointList2D>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<PointList2D>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_PointList2D(i: usize, x: &Arg, o: PointList2D, ifc: &mut IFC) -> PointList2D {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_PointList3D(a: &[Arg], ifc: &mut IFC) -> PointList3D {
    {  PointList3D::new(vec3s(&a[0])) }
}
pub fn s_PointList3D(ifc: &mut IFC) -> PointList3D { let a = sample("PointList3D"); c_PointList3D(&a, ifc) }
pub fn r_PointList3D(a: &Arg, ifc: &mut IFC) -> IdOr<PointList3D> { match form(a) { "value" => IdOr::from(s_PointList3D(ifc)), "typed" => IdOr::from(typed::<PointList3D>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<PointList3D>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_PointList3D(i: usize, x: &Arg, o: PointList3D, ifc: &mut IFC) -> PointList3D {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_IndexedPolyCurve(a: &[Arg], ifc: &mut IFC) -> IndexedPolyCurve {
    match (ty(&a[0]),) {
            ("PointList2D",) => { let x0 = s_PointList2D(ifc); IndexedPolyCurve::new(x0, ifc) }
            ("PointList3D",) => { let x0 = s_PointList3D(ifc); IndexedPolyCurve::new(x0, ifc) }
            t => panic!("type {t:?}"),
        }
}
pub fn s_IndexedPolyCurve(ifc: &mut IFC) -> IndexedPolyCurve { let a = sample("IndexedPolyCurve"); c_IndexedPolyCurve(&a, ifc) }
pub fn r_IndexedPolyCurve(a: &Arg, ifc: &mut IFC) -> IdOr<IndexedPolyCurve> { match form(a) { "value" => IdOr::from(s_IndexedPolyCurve(ifc)), "typed" => IdOr::from(typed::<IndexedPolyCurve>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<IndexedPolyCurve>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_IndexedPolyCurve(i: usize, x: &Arg, o: IndexedPolyCurve, ifc: &mut IFC) -> IndexedPolyCurve {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_PolyLine(a: &[Arg], ifc: &mut IFC) -> PolyLine {
    match (ty(&a[0]),) {
            ("Point2D",) => { let x0 = (0..num(&a[0])).map(|_| s_Point2D(ifc)).collect::<Vec<_>>().into_iter(); PolyLine::from(x0, ifc) }
            ("Point3D",) => { let x0 = (0..num(&a[0])).map(|_| s_Point3D(ifc)).collect::<Vec<_>>().into_iter(); PolyLine::from(x0, ifc) }
            t => panic!("type {t:?}"),
        }
}
pub fn s_PolyLine(ifc: &mut IFC) -> PolyLine { let a = sample("PolyLine"); c_PolyLine(&a, ifc) }
pub fn r_PolyLine(a: &Arg, ifc: &mut IFC) -> IdOr<PolyLine> { match form(a) { "value" => IdOr::from(s_PolyLine(ifc)), "typed" => IdOr::from(typed::<PolyLine>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<PolyLine>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_PolyLine(i: usize, x: &Arg, o: PolyLine, ifc: &mut IFC) -> PolyLine {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_ExtrudedAreaSolid(a: &[Arg], ifc: &mut IFC) -> ExtrudedAreaSolid {
    match (ty(&a[0]),) {
            ("RectangleProfileDef",) => { let x0 = r_RectangleProfileDef(&a[0], ifc); let x1 = r_Direction3D(&a[1], ifc); let x2 = real(&a[2]); ExtrudedAreaSolid::new::<RectangleProfileDef>(x0, x1, x2, ifc) }
            ("ArbitraryClosedProfileDef",) => { let x0 = r_ArbitraryClosedProfileDef(&a[0], ifc); let x1 = r_Direction3D(&a[1], ifc); let x2 = real(&a[2]); ExtrudedAreaSolid::new::<ArbitraryClosedProfileDef>(x0, x1, x2, ifc) }
            t => panic!("type {t:?}"),
        }
}
pub fn s_ExtrudedAreaSolid(ifc: &mut IFC) -> ExtrudedAreaSolid { let a = sample("ExtrudedAreaSolid"); c_ExtrudedAreaSolid(&a, ifc) }
pub fn r_ExtrudedAreaSolid(a: &Arg, ifc: &mut IFC) -> IdOr<ExtrudedAreaSolid> { match form(a) { "value" => IdOr::from(s_ExtrudedAreaSolid(ifc)), "typed" => IdOr::from(typed::<ExtrudedAreaSolid>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<ExtrudedAreaSolid>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_ExtrudedAreaSolid(i: usize, x: &Arg, o: ExtrudedAreaSolid, ifc: &mut IFC) -> ExtrudedAreaSolid {
    match i {
        1 => { let x0 = r_Axis3D(x, ifc); o.position(x0, ifc) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_ProductDefinitionShape(a: &[Arg], ifc: &mut IFC) -> ProductDefinitionShape {
    {  ProductDefinitionShape::new() }
}
pub fn s_ProductDefinitionShape(ifc: &mut IFC) -> ProductDefinitionShape { let a = sample("ProductDefinitionShape"); c_ProductDefinitionShape(&a, ifc) }
pub fn r_ProductDefinitionShape(a: &Arg, ifc: &mut IFC) -> IdOr<ProductDefinitionShape> { match form(a) { "value" => IdOr::from(s_ProductDefinitionShape(ifc)), "typed" => IdOr::from(typed::<ProductDefinitionShape>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<ProductDefinitionShape>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_ProductDefinitionShape(i: usize, x: &Arg, o: ProductDefinitionShape, ifc: &mut IFC) -> ProductDefinitionShape {
    match i {
        1 => {  o.name(text(x)) },
        2 => {  o.description(text(x)) },
        3 => { let x0 = r_ShapeRepresentation(x, ifc); o.add_representation(x0, ifc) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_GeometricRepresentationContext(a: &[Arg], ifc: &mut IFC) -> GeometricRepresentationContext {
    match (ty(&a[1]),) {
            ("Axis2D",) => { let x0 = e_DimensionCount(text(&a[0])); let x1 = r_Axis2D(&a[1], ifc); GeometricRepresentationContext::new::<Axis2D>(x0, x1, ifc) }
            ("Axis3D",) => { let x0 = e_DimensionCount(text(&a[0])); let x1 = r_Axis3D(&a[1], ifc); GeometricRepresentationContext::new::<Axis3D>(x0, x1, ifc) }
            t => panic!("type {t:?}"),
        }
}
pub fn s_GeometricRepresentationContext(ifc: &mut IFC) -> GeometricRepresentationContext { let a = sample("GeometricRepresentationContext"); c_GeometricRepresentationContext(&a, ifc) }
pub fn r_GeometricRepresentationContext(a: &Arg, ifc: &mut IFC) -> IdOr<GeometricRepresentationContext> { match form(a) { "value" => IdOr::from(s_GeometricRepresentationContext(ifc)), "typed" => IdOr::from(typed::<GeometricRepresentationContext>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<GeometricRepresentationContext>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_GeometricRepresentationContext(i: usize, x: &Arg, o: GeometricRepresentationContext, ifc: &mut IFC) -> GeometricRepresentationContext {
    match i {
        1 => {  o.precision(real(x)) },
        2 => match (ty(x),) {
            ("Direction2D",) => { let x0 = r_Direction2D(x, ifc); o.true_north::<Direction2D>(x0, ifc) }
            ("Direction3D",) => { let x0 = r_Direction3D(x, ifc); o.true_north::<Direction3D>(x0, ifc) }
            t => panic!("type {t:?}"),
        },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_GeometricRepresentationSubContext(a: &[Arg], ifc: &mut IFC) -> GeometricRepresentationSubContext {
    { let x0 = r_GeometricRepresentationContext(&a[0], ifc); let x1 = e_GeometricProjection(text(&a[1])); GeometricRepresentationSubContext::derive(x0, x1, ifc) }
}
pub fn s_GeometricRepresentationSubContext(ifc: &mut IFC) -> GeometricRepresentationSubContext { let a = sample("GeometricRepresentationSubContext"); c_GeometricRepresentationSubContext(&a, ifc) }
pub fn r_GeometricRepresentationSubContext(a: &Arg, ifc: &mut IFC) -> IdOr<GeometricRepresentationSubContext> { match form(a) { "value" => IdOr::from(s_GeometricRepresentationSubContext(ifc)), "typed" => IdOr::from(typed::<GeometricRepresentationSubContext>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<GeometricRepresentationSubContext>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_GeometricRepresentationSubContext(i: usize, x: &Arg, o: GeometricRepresentationSubContext, ifc: &mut IFC) -> GeometricRepresentationSubContext {
    match i {
        1 => {  o.target_scale(real(x)) },
        2 => {  o.user_defined_target_view(text(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_ShapeRepresentation(a: &[Arg], ifc: &mut IFC) -> ShapeRepresentation {
    { let x0 = r_GeometricRepresentationSubContext(&a[0], ifc); let x1 = e_RepresentationIdentifier(text(&a[1])); let x2 = e_RepresentationType(text(&a[2])); ShapeRepresentation::new(x0, x1, x2, ifc) }
}
pub fn s_ShapeRepresentation(ifc: &mut IFC) -> ShapeRepresentation { let a = sample("ShapeRepresentation"); c_ShapeRepresentation(&a, ifc) }
pub fn r_ShapeRepresentation(a: &Arg, ifc: &mut IFC) -> IdOr<ShapeRepresentation> { match form(a) { "value" => IdOr::from(s_ShapeRepresentation(ifc)), "typed" => IdOr::from(typed::<ShapeRepresentation>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<ShapeRepresentation>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_ShapeRepresentation(i: usize, x: &Arg, o: ShapeRepresentation, ifc: &mut IFC) -> ShapeRepresentation {
    match i {
        1 => match (ty(x),) {
            ("ExtrudedAreaSolid",) => { let x0 = s_ExtrudedAreaSolid(ifc); o.add_item(x0, ifc) }
            ("PolyLine",) => { let x0 = s_PolyLine(ifc); o.add_item(x0, ifc) }
            ("MappedItem",) => { let x0 = s_MappedItem(ifc); o.add_item(x0, ifc) }
            t => panic!("type {t:?}"),
        },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_LocalPlacement(a: &[Arg], ifc: &mut IFC) -> LocalPlacement {
    match (ty(&a[0]),) {
            ("Axis2D",) => { let x0 = r_Axis2D(&a[0], ifc); LocalPlacement::new::<Axis2D>(x0, ifc) }
            ("Axis3D",) => { let x0 = r_Axis3D(&a[0], ifc); LocalPlacement::new::<Axis3D>(x0, ifc) }
            t => panic!("type {t:?}"),
        }
}
pub fn s_LocalPlacement(ifc: &mut IFC) -> LocalPlacement { let a = sample("LocalPlacement"); c_LocalPlacement(&a, ifc) }
pub fn r_LocalPlacement(a: &Arg, ifc: &mut IFC) -> IdOr<LocalPlacement> { match form(a) { "value" => IdOr::from(s_LocalPlacement(ifc)), "typed" => IdOr::from(typed::<LocalPlacement>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<LocalPlacement>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_LocalPlacement(i: usize, x: &Arg, o: LocalPlacement, ifc: &mut IFC) -> LocalPlacement {
    match i {
        1 => { let x0 = r_LocalPlacement(x, ifc); o.relative_to(x0, ifc) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_CartesianTransformationOperator3D(a: &[Arg], ifc: &mut IFC) -> CartesianTransformationOperator3D {
    { let x0 = r_Point3D(&a[0], ifc); let x1 = r_Direction3D(&a[1], ifc); let x2 = r_Direction3D(&a[2], ifc); let x3 = r_Direction3D(&a[3], ifc); let x4 = real(&a[4]); CartesianTransformationOperator3D::new(x0, (x1, x2, x3), x4, ifc) }
}
pub fn s_CartesianTransformationOperator3D(ifc: &mut IFC) -> CartesianTransformationOperator3D { let a = sample("CartesianTransformationOperator3D"); c_CartesianTransformationOperator3D(&a, ifc) }
pub fn r_CartesianTransformationOperator3D(a: &Arg, ifc: &mut IFC) -> IdOr<CartesianTransformationOperator3D> { match form(a) { "value" => IdOr::from(s_CartesianTransformationOperator3D(ifc)), "typed" => IdOr::from(typed::<CartesianTransformationOperator3D>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<CartesianTransformationOperator3D>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_CartesianTransformationOperator3D(i: usize, x: &Arg, o: CartesianTransformationOperator3D, ifc: &mut IFC) -> CartesianTransformationOperator3D {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_CartesianTransformationOperator3DnonUniform(a: &[Arg], ifc: &mut IFC) -> CartesianTransformationOperator3DnonUniform {
    { let x0 = r_Point3D(&a[0], ifc); let x1 = r_Direction3D(&a[1], ifc); let x2 = r_Direction3D(&a[2], ifc); let x3 = r_Direction3D(&a[3], ifc); let x4 = real(&a[4]); let x5 = real(&a[5]); let x6 = real(&a[6]); CartesianTransformationOperator3DnonUniform::new(x0, (x1, x2, x3), (x4, x5, x6), ifc) }
}
pub fn s_CartesianTransformationOperator3DnonUniform(ifc: &mut IFC) -> CartesianTransformationOperator3DnonUniform { let a = sample("CartesianTransformationOperator3DnonUniform"); c_CartesianTransformationOperator3DnonUniform(&a, ifc) }
pub fn r_CartesianTransformationOperator3DnonUniform(a: &Arg, ifc: &mut IFC) -> IdOr<CartesianTransformationOperator3DnonUniform> { match form(a) { "value" => IdOr::from(s_CartesianTransformationOperator3DnonUniform(ifc)), "typed" => IdOr::from(typed::<CartesianTransformationOperator3DnonUniform>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<CartesianTransformationOperator3DnonUniform>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_CartesianTransformationOperator3DnonUniform(i: usize, x: &Arg, o: CartesianTransformationOperator3DnonUniform, ifc: &mut IFC) -> CartesianTransformationOperator3DnonUniform {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_Material(a: &[Arg], ifc: &mut IFC) -> Material {
    {  Material::new(text(&a[0])) }
}
pub fn s_Material(ifc: &mut IFC) -> Material { let a = sample("Material"); c_Material(&a, ifc) }
pub fn r_Material(a: &Arg, ifc: &mut IFC) -> IdOr<Material> { match form(a) { "value" => IdOr::from(s_Material(ifc)), "typed" => IdOr::from(typed::<Material>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<Material>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_Material(i: usize, x: &Arg, o: Material, ifc: &mut IFC) -> Material {
    match i {
        1 => {  o.description(text(x)) },
        2 => {  o.category(text(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_MaterialConstituent(a: &[Arg], ifc: &mut IFC) -> MaterialConstituent {
    {  MaterialConstituent::new(typed::<Material>(&a[0])) }
}
pub fn s_MaterialConstituent(ifc: &mut IFC) -> MaterialConstituent { let a = sample("MaterialConstituent"); c_MaterialConstituent(&a, ifc) }
pub fn r_MaterialConstituent(a: &Arg, ifc: &mut IFC) -> IdOr<MaterialConstituent> { match form(a) { "value" => IdOr::from(s_MaterialConstituent(ifc)), "typed" => IdOr::from(typed::<MaterialConstituent>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<MaterialConstituent>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_MaterialConstituent(i: usize, x: &Arg, o: MaterialConstituent, ifc: &mut IFC) -> MaterialConstituent {
    match i {
        1 => { let x0 = r_Material(x, ifc); o.material(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.category(text(x)) },
        5 => {  o.fraction(real(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_MaterialConstituentSet(a: &[Arg], ifc: &mut IFC) -> MaterialConstituentSet {
    {  MaterialConstituentSet::new() }
}
pub fn s_MaterialConstituentSet(ifc: &mut IFC) -> MaterialConstituentSet { let a = sample("MaterialConstituentSet"); c_MaterialConstituentSet(&a, ifc) }
pub fn r_MaterialConstituentSet(a: &Arg, ifc: &mut IFC) -> IdOr<MaterialConstituentSet> { match form(a) { "value" => IdOr::from(s_MaterialConstituentSet(ifc)), "typed" => IdOr::from(typed::<MaterialConstituentSet>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<MaterialConstituentSet>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_MaterialConstituentSet(i: usize, x: &Arg, o: MaterialConstituentSet, ifc: &mut IFC) -> MaterialConstituentSet {
    match i {
        1 => {  o.name(text(x)) },
        2 => {  o.description(text(x)) },
        3 => { let x0 = r_MaterialConstituent(x, ifc); o.add_constituent(x0, ifc) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_MaterialLayer(a: &[Arg], ifc: &mut IFC) -> MaterialLayer {
    {  MaterialLayer::new(real(&a[0]), boolean(&a[1])) }
}
pub fn s_MaterialLayer(ifc: &mut IFC) -> MaterialLayer { let a = sample("MaterialLayer"); c_MaterialLayer(&a, ifc) }
pub fn r_MaterialLayer(a: &Arg, ifc: &mut IFC) -> IdOr<MaterialLayer> { match form(a) { "value" => IdOr::from(s_MaterialLayer(ifc)), "typed" => IdOr::from(typed::<MaterialLayer>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<MaterialLayer>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_MaterialLayer(i: usize, x: &Arg, o: MaterialLayer, ifc: &mut IFC) -> MaterialLayer {
    match i {
        1 => { let x0 = r_Material(x, ifc); o.material(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        4 => {  o.category(text(x)) },
        5 => {  o.priority(int(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_MaterialLayerSet(a: &[Arg], ifc: &mut IFC) -> MaterialLayerSet {
    {  MaterialLayerSet::new() }
}
pub fn s_MaterialLayerSet(ifc: &mut IFC) -> MaterialLayerSet { let a = sample("MaterialLayerSet"); c_MaterialLayerSet(&a, ifc) }
pub fn r_MaterialLayerSet(a: &Arg, ifc: &mut IFC) -> IdOr<MaterialLayerSet> { match form(a) { "value" => IdOr::from(s_MaterialLayerSet(ifc)), "typed" => IdOr::from(typed::<MaterialLayerSet>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<MaterialLayerSet>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_MaterialLayerSet(i: usize, x: &Arg, o: MaterialLayerSet, ifc: &mut IFC) -> MaterialLayerSet {
    match i {
        1 => {  o.name(text(x)) },
        2 => {  o.description(text(x)) },
        3 => { let x0 = r_MaterialLayer(x, ifc); o.add_layer(x0, ifc) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_MaterialLayerSetUsage(a: &[Arg], ifc: &mut IFC) -> MaterialLayerSetUsage {
    { let x0 = r_MaterialLayerSet(&a[0], ifc); let x1 = e_LayerSetDirectionEnum(text(&a[1])); let x2 = e_DirectionSenseEnum(text(&a[2])); let x3 = real(&a[3]); MaterialLayerSetUsage::new(x0, x1, x2, x3, ifc) }
}
pub fn s_MaterialLayerSetUsage(ifc: &mut IFC) -> MaterialLayerSetUsage { let a = sample("MaterialLayerSetUsage"); c_MaterialLayerSetUsage(&a, ifc) }
pub fn r_MaterialLayerSetUsage(a: &Arg, ifc: &mut IFC) -> IdOr<MaterialLayerSetUsage> { match form(a) { "value" => IdOr::from(s_MaterialLayerSetUsage(ifc)), "typed" => IdOr::from(typed::<MaterialLayerSetUsage>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<MaterialLayerSetUsage>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_MaterialLayerSetUsage(i: usize, x: &Arg, o: MaterialLayerSetUsage, ifc: &mut IFC) -> MaterialLayerSetUsage {
    match i {
        1 => {  o.reference_extent(real(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_PropertySet(a: &[Arg], ifc: &mut IFC) -> PropertySet {
    {  PropertySet::new(text(&a[0]), typeds::<PropertySingleValue>(&a[1])) }
}
pub fn s_PropertySet(ifc: &mut IFC) -> PropertySet { let a = sample("PropertySet"); c_PropertySet(&a, ifc) }
pub fn r_PropertySet(a: &Arg, ifc: &mut IFC) -> IdOr<PropertySet> { match form(a) { "value" => IdOr::from(s_PropertySet(ifc)), "typed" => IdOr::from(typed::<PropertySet>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<PropertySet>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_PropertySet(i: usize, x: &Arg, o: PropertySet, ifc: &mut IFC) -> PropertySet {
    match i {
        1 => { let x0 = r_OwnerHistory(x, ifc); o.owner_history(x0, ifc) },
        2 => {  o.name(text(x)) },
        3 => {  o.description(text(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_PropertySingleValue(a: &[Arg], ifc: &mut IFC) -> PropertySingleValue {
    {  PropertySingleValue::new(text(&a[0]), value(&a[1]), oid(&a[2])) }
}
pub fn s_PropertySingleValue(ifc: &mut IFC) -> PropertySingleValue { let a = sample("PropertySingleValue"); c_PropertySingleValue(&a, ifc) }
pub fn r_PropertySingleValue(a: &Arg, ifc: &mut IFC) -> IdOr<PropertySingleValue> { match form(a) { "value" => IdOr::from(s_PropertySingleValue(ifc)), "typed" => IdOr::from(typed::<PropertySingleValue>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<PropertySingleValue>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_PropertySingleValue(i: usize, x: &Arg, o: PropertySingleValue, ifc: &mut IFC) -> PropertySingleValue {
    match i {
        1 => {  o.name(text(x)) },
        2 => {  o.description(text(x)) },
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_UnitAssigment(a: &[Arg], ifc: &mut IFC) -> UnitAssigment {
    { let x0 = words(&a[0]).into_iter().map(|w| if w == "v" { IdOr::from(s_SiUnit(ifc)) } else { IdOr::from(Id(w.parse().unwrap())) }).collect::<Vec<_>>(); UnitAssigment::new(x0, ifc) }
}
pub fn s_UnitAssigment(ifc: &mut IFC) -> UnitAssigment { let a = sample("UnitAssigment"); c_UnitAssigment(&a, ifc) }
pub fn r_UnitAssigment(a: &Arg, ifc: &mut IFC) -> IdOr<UnitAssigment> { match form(a) { "value" => IdOr::from(s_UnitAssigment(ifc)), "typed" => IdOr::from(typed::<UnitAssigment>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<UnitAssigment>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_UnitAssigment(i: usize, x: &Arg, o: UnitAssigment, ifc: &mut IFC) -> UnitAssigment {
    match i {
        i => panic!("setter {i}"),
    }
}
#[allow(unused_variables)]
pub fn c_SiUnit(a: &[Arg], ifc: &mut IFC) -> SiUnit {
    {  SiUnit::new(otext(&a[0]).map(e_IfcUnitEnum), otext(&a[1]).map(e_IfcPrefix), e_IfcUnitName(text(&a[2]))) }
}
pub fn s_SiUnit(ifc: &mut IFC) -> SiUnit { let a = sample("SiUnit"); c_SiUnit(&a, ifc) }
pub fn r_SiUnit(a: &Arg, ifc: &mut IFC) -> IdOr<SiUnit> { match form(a) { "value" => IdOr::from(s_SiUnit(ifc)), "typed" => IdOr::from(typed::<SiUnit>(a)), "id" => IdOr::from(id(a)), "idor" => IdOr::Id(typed::<SiUnit>(a)), f => panic!("form {f}") } }
#[allow(unused_variables, unused_mut)]
fn m_SiUnit(i: usize, x: &Arg, o: SiUnit, ifc: &mut IFC) -> SiUnit {
    match i {
        i => panic!("setter {i}"),
    }
}
pub fn build(ty: &str, ctor: &[Arg], calls: &[(usize, Arg)], ifc: &mut IFC) -> Id {
    match ty {
        "Organization" => { let mut o = c_Organization(ctor, ifc); for (i, x) in calls { o = m_Organization(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Application" => { let mut o = c_Application(ctor, ifc); for (i, x) in calls { o = m_Application(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "ActorRole" => { let mut o = c_ActorRole(ctor, ifc); for (i, x) in calls { o = m_ActorRole(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "TelecomAddress" => { let mut o = c_TelecomAddress(ctor, ifc); for (i, x) in calls { o = m_TelecomAddress(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "PostalAddress" => { let mut o = c_PostalAddress(ctor, ifc); for (i, x) in calls { o = m_PostalAddress(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Person" => { let mut o = c_Person(ctor, ifc); for (i, x) in calls { o = m_Person(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "PersonAndOrganization" => { let mut o = c_PersonAndOrganization(ctor, ifc); for (i, x) in calls { o = m_PersonAndOrganization(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "OwnerHistory" => { let mut o = c_OwnerHistory(ctor, ifc); for (i, x) in calls { o = m_OwnerHistory(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Project" => { let mut o = c_Project(ctor, ifc); for (i, x) in calls { o = m_Project(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Site" => { let mut o = c_Site(ctor, ifc); for (i, x) in calls { o = m_Site(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Building" => { let mut o = c_Building(ctor, ifc); for (i, x) in calls { o = m_Building(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Storey" => { let mut o = c_Storey(ctor, ifc); for (i, x) in calls { o = m_Storey(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Space" => { let mut o = c_Space(ctor, ifc); for (i, x) in calls { o = m_Space(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Wall" => { let mut o = c_Wall(ctor, ifc); for (i, x) in calls { o = m_Wall(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Slab" => { let mut o = c_Slab(ctor, ifc); for (i, x) in calls { o = m_Slab(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Roof" => { let mut o = c_Roof(ctor, ifc); for (i, x) in calls { o = m_Roof(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "ShadingDevice" => { let mut o = c_ShadingDevice(ctor, ifc); for (i, x) in calls { o = m_ShadingDevice(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "OpeningElement" => { let mut o = c_OpeningElement(ctor, ifc); for (i, x) in calls { o = m_OpeningElement(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Door" => { let mut o = c_Door(ctor, ifc); for (i, x) in calls { o = m_Door(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Window" => { let mut o = c_Window(ctor, ifc); for (i, x) in calls { o = m_Window(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "WallType" => { let mut o = c_WallType(ctor, ifc); for (i, x) in calls { o = m_WallType(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "SlabType" => { let mut o = c_SlabType(ctor, ifc); for (i, x) in calls { o = m_SlabType(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "RoofType" => { let mut o = c_RoofType(ctor, ifc); for (i, x) in calls { o = m_RoofType(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "ShadingDeviceType" => { let mut o = c_ShadingDeviceType(ctor, ifc); for (i, x) in calls { o = m_ShadingDeviceType(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "SpaceType" => { let mut o = c_SpaceType(ctor, ifc); for (i, x) in calls { o = m_SpaceType(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "DoorType" => { let mut o = c_DoorType(ctor, ifc); for (i, x) in calls { o = m_DoorType(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "WindowType" => { let mut o = c_WindowType(ctor, ifc); for (i, x) in calls { o = m_WindowType(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "RelAggregates" => { let mut o = c_RelAggregates(ctor, ifc); for (i, x) in calls { o = m_RelAggregates(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "RelAssociatesMaterial" => { let mut o = c_RelAssociatesMaterial(ctor, ifc); for (i, x) in calls { o = m_RelAssociatesMaterial(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "RelContainedInSpatialStructure" => { let mut o = c_RelContainedInSpatialStructure(ctor, ifc); for (i, x) in calls { o = m_RelContainedInSpatialStructure(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "RelDeclares" => { let mut o = c_RelDeclares(ctor, ifc); for (i, x) in calls { o = m_RelDeclares(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "RelDefinesByProperties" => { let mut o = c_RelDefinesByProperties(ctor, ifc); for (i, x) in calls { o = m_RelDefinesByProperties(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "RelDefinesByType" => { let mut o = c_RelDefinesByType(ctor, ifc); for (i, x) in calls { o = m_RelDefinesByType(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "RelFillsElement" => { let mut o = c_RelFillsElement(ctor, ifc); for (i, x) in calls { o = m_RelFillsElement(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "RelVoidsElement" => { let mut o = c_RelVoidsElement(ctor, ifc); for (i, x) in calls { o = m_RelVoidsElement(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "MappedItem" => { let mut o = c_MappedItem(ctor, ifc); for (i, x) in calls { o = m_MappedItem(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "RepresentationMap" => { let mut o = c_RepresentationMap(ctor, ifc); for (i, x) in calls { o = m_RepresentationMap(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "ArbitraryClosedProfileDef" => { let mut o = c_ArbitraryClosedProfileDef(ctor, ifc); for (i, x) in calls { o = m_ArbitraryClosedProfileDef(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "RectangleProfileDef" => { let mut o = c_RectangleProfileDef(ctor, ifc); for (i, x) in calls { o = m_RectangleProfileDef(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Axis2D" => { let mut o = c_Axis2D(ctor, ifc); for (i, x) in calls { o = m_Axis2D(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Axis3D" => { let mut o = c_Axis3D(ctor, ifc); for (i, x) in calls { o = m_Axis3D(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Direction2D" => { let mut o = c_Direction2D(ctor, ifc); for (i, x) in calls { o = m_Direction2D(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Direction3D" => { let mut o = c_Direction3D(ctor, ifc); for (i, x) in calls { o = m_Direction3D(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Point2D" => { let mut o = c_Point2D(ctor, ifc); for (i, x) in calls { o = m_Point2D(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Point3D" => { let mut o = c_Point3D(ctor, ifc); for (i, x) in calls { o = m_Point3D(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "PointList2D" => { let mut o = c_PointList2D(ctor, ifc); for (i, x) in calls { o = m_PointList2D(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "PointList3D" => { let mut o = c_PointList3D(ctor, ifc); for (i, x) in calls { o = m_PointList3D(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "IndexedPolyCurve" => { let mut o = c_IndexedPolyCurve(ctor, ifc); for (i, x) in calls { o = m_IndexedPolyCurve(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "PolyLine" => { let mut o = c_PolyLine(ctor, ifc); for (i, x) in calls { o = m_PolyLine(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "ExtrudedAreaSolid" => { let mut o = c_ExtrudedAreaSolid(ctor, ifc); for (i, x) in calls { o = m_ExtrudedAreaSolid(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "ProductDefinitionShape" => { let mut o = c_ProductDefinitionShape(ctor, ifc); for (i, x) in calls { o = m_ProductDefinitionShape(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "GeometricRepresentationContext" => { let mut o = c_GeometricRepresentationContext(ctor, ifc); for (i, x) in calls { o = m_GeometricRepresentationContext(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "GeometricRepresentationSubContext" => { let mut o = c_GeometricRepresentationSubContext(ctor, ifc); for (i, x) in calls { o = m_GeometricRepresentationSubContext(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "ShapeRepresentation" => { let mut o = c_ShapeRepresentation(ctor, ifc); for (i, x) in calls { o = m_ShapeRepresentation(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "LocalPlacement" => { let mut o = c_LocalPlacement(ctor, ifc); for (i, x) in calls { o = m_LocalPlacement(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "CartesianTransformationOperator3D" => { let mut o = c_CartesianTransformationOperator3D(ctor, ifc); for (i, x) in calls { o = m_CartesianTransformationOperator3D(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "CartesianTransformationOperator3DnonUniform" => { let mut o = c_CartesianTransformationOperator3DnonUniform(ctor, ifc); for (i, x) in calls { o = m_CartesianTransformationOperator3DnonUniform(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "Material" => { let mut o = c_Material(ctor, ifc); for (i, x) in calls { o = m_Material(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "MaterialConstituent" => { let mut o = c_MaterialConstituent(ctor, ifc); for (i, x) in calls { o = m_MaterialConstituent(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "MaterialConstituentSet" => { let mut o = c_MaterialConstituentSet(ctor, ifc); for (i, x) in calls { o = m_MaterialConstituentSet(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "MaterialLayer" => { let mut o = c_MaterialLayer(ctor, ifc); for (i, x) in calls { o = m_MaterialLayer(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "MaterialLayerSet" => { let mut o = c_MaterialLayerSet(ctor, ifc); for (i, x) in calls { o = m_MaterialLayerSet(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "MaterialLayerSetUsage" => { let mut o = c_MaterialLayerSetUsage(ctor, ifc); for (i, x) in calls { o = m_MaterialLayerSetUsage(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "PropertySet" => { let mut o = c_PropertySet(ctor, ifc); for (i, x) in calls { o = m_PropertySet(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "PropertySingleValue" => { let mut o = c_PropertySingleValue(ctor, ifc); for (i, x) in calls { o = m_PropertySingleValue(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "UnitAssigment" => { let mut o = c_UnitAssigment(ctor, ifc); for (i, x) in calls { o = m_UnitAssigment(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        "SiUnit" => { let mut o = c_SiUnit(ctor, ifc); for (i, x) in calls { o = m_SiUnit(*i, x, o, ifc); } ifc.data.insert_new(o).id() }
        t => panic!("type {t}"),
    }
}
pub fn e_AccessState(s: &str) -> AccessState { match s { "ReadWrite" => AccessState::ReadWrite, "ReadOnly" => AccessState::ReadOnly, "Locked" => AccessState::Locked, "ReadWriteLocked" => AccessState::ReadWriteLocked, "ReadOnlyLocked" => AccessState::ReadOnlyLocked, s => panic!("item {s}") } }
pub fn e_ChangeAction(s: &str) -> ChangeAction { match s { "NoChange" => ChangeAction::NoChange, "Modified" => ChangeAction::Modified, "Added" => ChangeAction::Added, "Deleted" => ChangeAction::Deleted, "ModifiedAdded" => ChangeAction::ModifiedAdded, "ModifiedDeleted" => ChangeAction::ModifiedDeleted, s => panic!("item {s}") } }
pub fn e_CompositionTypeEnum(s: &str) -> CompositionTypeEnum { match s { "Comples" => CompositionTypeEnum::Comples, "Element" => CompositionTypeEnum::Element, "Partial" => CompositionTypeEnum::Partial, s => panic!("item {s}") } }
pub fn e_DimensionCount(s: &str) -> DimensionCount { match s { "One" => DimensionCount::One, "Two" => DimensionCount::Two, "Three" => DimensionCount::Three, s => panic!("item {s}") } }
pub fn e_DirectionSenseEnum(s: &str) -> DirectionSenseEnum { match s { "Positive" => DirectionSenseEnum::Positive, "Negative" => DirectionSenseEnum::Negative, s => panic!("item {s}") } }
pub fn e_DoorOperationTypeEnum(s: &str) -> DoorOperationTypeEnum { match s { "SingleSwingLeft" => DoorOperationTypeEnum::SingleSwingLeft, "SingleSwingRight" => DoorOperationTypeEnum::SingleSwingRight, "DoubleDoorSingleSwing" => DoorOperationTypeEnum::DoubleDoorSingleSwing, "DoubleSwingLeft" => DoorOperationTypeEnum::DoubleSwingLeft, "DoubleSwingRight" => DoorOperationTypeEnum::DoubleSwingRight, "DoubleDoorDoubleSwing" => DoorOperationTypeEnum::DoubleDoorDoubleSwing, "DoubleDoorSingleSwingOppositeLeft" => DoorOperationTypeEnum::DoubleDoorSingleSwingOppositeLeft, "DoubleDoorSingleSwingOppositeRight" => DoorOperationTypeEnum::DoubleDoorSingleSwingOppositeRight, "SlidingToLeft" => DoorOperationTypeEnum::SlidingToLeft, "SlidingToRight" => DoorOperationTypeEnum::SlidingToRight, "DoubleDoorSliding" => DoorOperationTypeEnum::DoubleDoorSliding, "FoldingToLeft" => DoorOperationTypeEnum::FoldingToLeft, "FoldingToRight" => DoorOperationTypeEnum::FoldingToRight, "DoubleDoorFolding" => DoorOperationTypeEnum::DoubleDoorFolding, "Revolving" => DoorOperationTypeEnum::Revolving, "RollingUp" => DoorOperationTypeEnum::RollingUp, "SwingFixedLeft" => DoorOperationTypeEnum::SwingFixedLeft, "SwingFixedRight" => DoorOperationTypeEnum::SwingFixedRight, "UserDefined" => DoorOperationTypeEnum::UserDefined, "NotDefined" => DoorOperationTypeEnum::NotDefined, s => panic!("item {s}") } }
pub fn e_DoorTypeEnum(s: &str) -> DoorTypeEnum { match s { "Door" => DoorTypeEnum::Door, "Gate" => DoorTypeEnum::Gate, "Trapdoor" => DoorTypeEnum::Trapdoor, "UserDefined" => DoorTypeEnum::UserDefined, "NotDefined" => DoorTypeEnum::NotDefined, s => panic!("item {s}") } }
pub fn e_GeometricProjection(s: &str) -> GeometricProjection { match s { "GraphView" => GeometricProjection::GraphView, "SketchView" => GeometricProjection::SketchView, "ModelView" => GeometricProjection::ModelView, "PlanView" => GeometricProjection::PlanView, "ReflectedPlanView" => GeometricProjection::ReflectedPlanView, "SectionView" => GeometricProjection::SectionView, "ElevationView" => GeometricProjection::ElevationView, "UserDefined" => GeometricProjection::UserDefined, "NotDefined" => GeometricProjection::NotDefined, s => panic!("item {s}") } }
pub fn e_IfcPrefix(s: &str) -> IfcPrefix { match s { "Exa" => IfcPrefix::Exa, "Peta" => IfcPrefix::Peta, "Tera" => IfcPrefix::Tera, "Giga" => IfcPrefix::Giga, "Mega" => IfcPrefix::Mega, "Kilo" => IfcPrefix::Kilo, "Deca" => IfcPrefix::Deca, "Deci" => IfcPrefix::Deci, "Centi" => IfcPrefix::Centi, "Milli" => IfcPrefix::Milli, "Micro" => IfcPrefix::Micro, "Nano" => IfcPrefix::Nano, "Pico" => IfcPrefix::Pico, "Femto" => IfcPrefix::Femto, "Atto" => IfcPrefix::Atto, s => panic!("item {s}") } }
pub fn e_IfcUnitEnum(s: &str) -> IfcUnitEnum { match s { "AbsorbedDoseUnit" => IfcUnitEnum::AbsorbedDoseUnit, "AmountOfSubstanceUnit" => IfcUnitEnum::AmountOfSubstanceUnit, "AreaUnit" => IfcUnitEnum::AreaUnit, "DoseEquivalentUnit" => IfcUnitEnum::DoseEquivalentUnit, "ElectricCapacitanceUnit" => IfcUnitEnum::ElectricCapacitanceUnit, "ElectricChargeUnit" => IfcUnitEnum::ElectricChargeUnit, "ElectricConductanceUnit" => IfcUnitEnum::ElectricConductanceUnit, "ElectricCurrentUnit" => IfcUnitEnum::ElectricCurrentUnit, "ElectricResistanceUnit" => IfcUnitEnum::ElectricResistanceUnit, "ElectricVoltageUnit" => IfcUnitEnum::ElectricVoltageUnit, "EnergyUnit" => IfcUnitEnum::EnergyUnit, "ForceUnit" => IfcUnitEnum::ForceUnit, "IlluminanceUnit" => IfcUnitEnum::IlluminanceUnit, "InductanceUnit" => IfcUnitEnum::InductanceUnit, "LengthUnit" => IfcUnitEnum::LengthUnit, "LuminousFluxUnit" => IfcUnitEnum::LuminousFluxUnit, "LuminousIntensityUnit" => IfcUnitEnum::LuminousIntensityUnit, "MagneticFluxDensityUnit" => IfcUnitEnum::MagneticFluxDensityUnit, "MagneticFluxUnit" => IfcUnitEnum::MagneticFluxUnit, "MassUnit" => IfcUnitEnum::MassUnit, "PlaneAngleUnit" => IfcUnitEnum::PlaneAngleUnit, "PowerUnit" => IfcUnitEnum::PowerUnit, "PressureUnit" => IfcUnitEnum::PressureUnit, "RadioActivityUnit" => IfcUnitEnum::RadioActivityUnit, "SolidAngleUnit" => IfcUnitEnum::SolidAngleUnit, "ThermoDynamicTemperatureUnit" => IfcUnitEnum::ThermoDynamicTemperatureUnit, "TimeUnit" => IfcUnitEnum::TimeUnit, "VolumeUnit" => IfcUnitEnum::VolumeUnit, "UserDefined" => IfcUnitEnum::UserDefined, s => panic!("item {s}") } }
pub fn e_IfcUnitName(s: &str) -> IfcUnitName { match s { "Ampere" => IfcUnitName::Ampere, "Becquerel" => IfcUnitName::Becquerel, "Candela" => IfcUnitName::Candela, "Couloumb" => IfcUnitName::Couloumb, "CubicMetre" => IfcUnitName::CubicMetre, "DegreeCelcius" => IfcUnitName::DegreeCelcius, "Farad" => IfcUnitName::Farad, "Gram" => IfcUnitName::Gram, "Gray" => IfcUnitName::Gray, "Henry" => IfcUnitName::Henry, "Hertz" => IfcUnitName::Hertz, "Joule" => IfcUnitName::Joule, "Kelvin" => IfcUnitName::Kelvin, "Lumen" => IfcUnitName::Lumen, "Lux" => IfcUnitName::Lux, "Metre" => IfcUnitName::Metre, "Mole" => IfcUnitName::Mole, "Newton" => IfcUnitName::Newton, "Ohm" => IfcUnitName::Ohm, "Pascal" => IfcUnitName::Pascal, "Radian" => IfcUnitName::Radian, "Second" => IfcUnitName::Second, "Siemens" => IfcUnitName::Siemens, "Sievert" => IfcUnitName::Sievert, "SquareMetre" => IfcUnitName::SquareMetre, "Steradian" => IfcUnitName::Steradian, "Tesla" => IfcUnitName::Tesla, "Volt" => IfcUnitName::Volt, "Watt" => IfcUnitName::Watt, "Weber" => IfcUnitName::Weber, s => panic!("item {s}") } }
pub fn e_LayerSetDirectionEnum(s: &str) -> LayerSetDirectionEnum { match s { "Axis1" => LayerSetDirectionEnum::Axis1, "Axis2" => LayerSetDirectionEnum::Axis2, "Axis3" => LayerSetDirectionEnum::Axis3, s => panic!("item {s}") } }
pub fn e_OpeningElementTypeEnum(s: &str) -> OpeningElementTypeEnum { match s { "Opening" => OpeningElementTypeEnum::Opening, "Recess" => OpeningElementTypeEnum::Recess, "UserDefined" => OpeningElementTypeEnum::UserDefined, "NotDefined" => OpeningElementTypeEnum::NotDefined, s => panic!("item {s}") } }
pub fn e_ProfileType(s: &str) -> ProfileType { match s { "Curve" => ProfileType::Curve, "Area" => ProfileType::Area, s => panic!("item {s}") } }
pub fn e_RepresentationIdentifier(s: &str) -> RepresentationIdentifier { match s { "CoG" => RepresentationIdentifier::CoG, "Box" => RepresentationIdentifier::Box, "Annotation" => RepresentationIdentifier::Annotation, "Axis" => RepresentationIdentifier::Axis, "FootPrint" => RepresentationIdentifier::FootPrint, "Profile" => RepresentationIdentifier::Profile, "Surface" => RepresentationIdentifier::Surface, "Reference" => RepresentationIdentifier::Reference, "Body" => RepresentationIdentifier::Body, "BodyFallBack" => RepresentationIdentifier::BodyFallBack, "Clearance" => RepresentationIdentifier::Clearance, "Lighting" => RepresentationIdentifier::Lighting, s => panic!("item {s}") } }
pub fn e_RepresentationType(s: &str) -> RepresentationType { match s { "Point" => RepresentationType::Point, "PointCloud" => RepresentationType::PointCloud, "Curve" => RepresentationType::Curve, "Curve2D" => RepresentationType::Curve2D, "Curve3D" => RepresentationType::Curve3D, "Surface" => RepresentationType::Surface, "Surface2D" => RepresentationType::Surface2D, "Surface3D" => RepresentationType::Surface3D, "SectionedSurface" => RepresentationType::SectionedSurface, "FillArea" => RepresentationType::FillArea, "Text" => RepresentationType::Text, "AdvancedSurface" => RepresentationType::AdvancedSurface, "GeometricSet" => RepresentationType::GeometricSet, "GeometricCurveSet" => RepresentationType::GeometricCurveSet, "Annotation2D" => RepresentationType::Annotation2D, "SurfaceModel" => RepresentationType::SurfaceModel, "Tessellation" => RepresentationType::Tessellation, "Segment" => RepresentationType::Segment, "SolidModel" => RepresentationType::SolidModel, "SweptSolid" => RepresentationType::SweptSolid, "AdvancedSweptSolid" => RepresentationType::AdvancedSweptSolid, "Brep" => RepresentationType::Brep, "AdvancedBrep" => RepresentationType::AdvancedBrep, "CSG" => RepresentationType::CSG, "Clipping" => RepresentationType::Clipping, "BoundingBox" => RepresentationType::BoundingBox, "SectionedSpine" => RepresentationType::SectionedSpine, "LightSource" => RepresentationType::LightSource, "MappedRepresentation" => RepresentationType::MappedRepresentation, s => panic!("item {s}") } }
pub fn e_Role(s: &str) -> Role { match s { "Supplier" => Role::Supplier, "Manufacturer" => Role::Manufacturer, "Contractor" => Role::Contractor, "Subcontractor" => Role::Subcontractor, "Architect" => Role::Architect, "StructuralEngineer" => Role::StructuralEngineer, "CostEngineer" => Role::CostEngineer, "Clien" => Role::Clien, "BuildingOwner" => Role::BuildingOwner, "BuildingOperator" => Role::BuildingOperator, "MechanicalEngineer" => Role::MechanicalEngineer, "ElectricalEngineer" => Role::ElectricalEngineer, "ProjectManager" => Role::ProjectManager, "FacilitiesManager" => Role::FacilitiesManager, "CivilEngineer" => Role::CivilEngineer, "ComissionEngineer" => Role::ComissionEngineer, "Engineer" => Role::Engineer, "Owner" => Role::Owner, "Consultant" => Role::Consultant, "ConstructionManager" => Role::ConstructionManager, "FieldConstructionManager" => Role::FieldConstructionManager, "Reseller" => Role::Reseller, "UserDefined" => Role::UserDefined, s => panic!("item {s}") } }
pub fn e_RoofTypeEnum(s: &str) -> RoofTypeEnum { match s { "FlatRoof" => RoofTypeEnum::FlatRoof, "ShedRoof" => RoofTypeEnum::ShedRoof, "GableRoof" => RoofTypeEnum::GableRoof, "HipRoof" => RoofTypeEnum::HipRoof, "HippedGableRoof" => RoofTypeEnum::HippedGableRoof, "GambrelRoof" => RoofTypeEnum::GambrelRoof, "MansardRoof" => RoofTypeEnum::MansardRoof, "BarrelRoof" => RoofTypeEnum::BarrelRoof, "RainbowRoof" => RoofTypeEnum::RainbowRoof, "ButterflyRoof" => RoofTypeEnum::ButterflyRoof, "PavilionRoof" => RoofTypeEnum::PavilionRoof, "DomeRoof" => RoofTypeEnum::DomeRoof, "UserDefined" => RoofTypeEnum::UserDefined, "NotDefined" => RoofTypeEnum::NotDefined, s => panic!("item {s}") } }
pub fn e_ShadingDeviceTypeEnum(s: &str) -> ShadingDeviceTypeEnum { match s { "Awning" => ShadingDeviceTypeEnum::Awning, "Parking" => ShadingDeviceTypeEnum::Parking, "Shutter" => ShadingDeviceTypeEnum::Shutter, "UserDefined" => ShadingDeviceTypeEnum::UserDefined, "NotDefined" => ShadingDeviceTypeEnum::NotDefined, s => panic!("item {s}") } }
pub fn e_SlabTypeEnum(s: &str) -> SlabTypeEnum { match s { "Floor" => SlabTypeEnum::Floor, "Roof" => SlabTypeEnum::Roof, "Landing" => SlabTypeEnum::Landing, "BaseSlab" => SlabTypeEnum::BaseSlab, "UserDefined" => SlabTypeEnum::UserDefined, "NotDefined" => SlabTypeEnum::NotDefined, s => panic!("item {s}") } }
pub fn e_SpaceTypeEnum(s: &str) -> SpaceTypeEnum { match s { "Space" => SpaceTypeEnum::Space, "Parking" => SpaceTypeEnum::Parking, "Gfa" => SpaceTypeEnum::Gfa, "Internal" => SpaceTypeEnum::Internal, "External" => SpaceTypeEnum::External, "UserDefined" => SpaceTypeEnum::UserDefined, "NotDefined" => SpaceTypeEnum::NotDefined, s => panic!("item {s}") } }
pub fn e_WallTypeEnum(s: &str) -> WallTypeEnum { match s { "Movable" => WallTypeEnum::Movable, "Parapet" => WallTypeEnum::Parapet, "Partitioning" => WallTypeEnum::Partitioning, "Plumbingwall" => WallTypeEnum::Plumbingwall, "Shear" => WallTypeEnum::Shear, "Solidwall" => WallTypeEnum::Solidwall, "Standard" => WallTypeEnum::Standard, "Polygonal" => WallTypeEnum::Polygonal, "Elementedwall" => WallTypeEnum::Elementedwall, "Retainingwall" => WallTypeEnum::Retainingwall, "UserDefined" => WallTypeEnum::UserDefined, "NotDefined" => WallTypeEnum::NotDefined, s => panic!("item {s}") } }
pub fn e_WindowPartitioningTypeEnum(s: &str) -> WindowPartitioningTypeEnum { match s { "SinglePanel" => WindowPartitioningTypeEnum::SinglePanel, "DoublePanelVertical" => WindowPartitioningTypeEnum::DoublePanelVertical, "DoublePanelHorizontal" => WindowPartitioningTypeEnum::DoublePanelHorizontal, "TriplePanelVertical" => WindowPartitioningTypeEnum::TriplePanelVertical, "TriplePanelHorizontal" => WindowPartitioningTypeEnum::TriplePanelHorizontal, "TriplePanelBottom" => WindowPartitioningTypeEnum::TriplePanelBottom, "TriplePanelTop" => WindowPartitioningTypeEnum::TriplePanelTop, "TriplePanelLeft" => WindowPartitioningTypeEnum::TriplePanelLeft, "TriplePanelRight" => WindowPartitioningTypeEnum::TriplePanelRight, "UserDefined" => WindowPartitioningTypeEnum::UserDefined, "NotDefined" => WindowPartitioningTypeEnum::NotDefined, s => panic!("item {s}") } }
pub fn e_WindowTypeEnum(s: &str) -> WindowTypeEnum { match s { "Window" => WindowTypeEnum::Window, "Skylight" => WindowTypeEnum::Skylight, "Lightdome" => WindowTypeEnum::Lightdome, "UserDefined" => WindowTypeEnum::UserDefined, "NotDefined" => WindowTypeEnum::NotDefined, s => panic!("item {s}") } }
