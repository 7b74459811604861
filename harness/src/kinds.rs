//! C31: what the instances of a model are.
use ifc_rs::prelude::*;
use serde_json::{json, Value};

macro_rules! products {
    ($f:ident) => {
        $f!(Wall, Slab, Roof, Window, Door, ShadingDevice, Site, Building, Storey, Space, OpeningElement)
    };
}
macro_rules! shapeable {
    ($f:ident) => {
        $f!(Wall, Slab, Roof, Window, Door, ShadingDevice, OpeningElement)
    };
}

fn rep_of(rep: i64) -> Option<TypedId<ProductDefinitionShape>> {
    (rep > 0).then(|| TypedId::new(Id(rep as usize)).id_or().id().unwrap())
}

fn put(ifc: &mut IFC, id: Option<usize>, k: &str, name: &str, rep: i64) {
    fn at<T: IfcType>(ifc: &mut IFC, id: Option<usize>, t: T) {
        match id {
            Some(i) => {
                ifc.data.insert(Id(i), t);
            }
            None => {
                ifc.data.insert_new(t);
            }
        }
    }
    macro_rules! prods { ($($t:ident),*) => { match k { $(stringify!($t) => { let mut t = $t::new(name); t.representation = rep_of(rep).into(); return at(ifc, id, t); })* _ => {} } } }
    products!(prods);
    match k {
        "Project" => at(ifc, id, Project::new(name)),
        "WallType" => at(ifc, id, WallType::new(name, WallTypeEnum::Standard)),
        "SlabType" => at(ifc, id, SlabType::new(name, SlabTypeEnum::Floor)),
        "RoofType" => at(ifc, id, RoofType::new(name, RoofTypeEnum::FlatRoof)),
        "WindowType" => at(ifc, id, WindowType::new(name, WindowTypeEnum::Window, WindowPartitioningTypeEnum::SinglePanel)),
        "DoorType" => at(ifc, id, DoorType::new(name, DoorTypeEnum::Door, DoorOperationTypeEnum::NotDefined)),
        "SpaceType" => at(ifc, id, SpaceType::new(name, SpaceTypeEnum::Internal)),
        "ShadingDeviceType" => at(ifc, id, ShadingDeviceType::new(name, ShadingDeviceTypeEnum::NotDefined)),
        "Material" => at(ifc, id, Material::new(name)),
        "ProductDefinitionShape" => {
            let mut s = ProductDefinitionShape::new();
            s.name = Some(name.into()).into();
            at(ifc, id, s)
        }
        "PropertySet" => at(ifc, id, PropertySet::new(name, std::iter::empty())),
        "Organization" => at(ifc, id, Organization::new(None, name, None)),
        k => panic!("no kind {k}"),
    }
}

fn reshape(ifc: &mut IFC, id: usize, rep: i64) {
    macro_rules! prods { ($($t:ident),*) => { $( if ifc.data.get_untyped(Id(id)).downcast_ref::<$t>().is_some() { ifc.data.get_mut::<$t>(TypedId::new(Id(id))).representation = rep_of(rep).into(); return; } )* } }
    products!(prods);
    panic!("no product");
}

fn redirect(ifc: &mut IFC, id: usize, rep: i64) {
    macro_rules! prods { ($($t:ident),*) => { $( if ifc.data.get_untyped(Id(id)).downcast_ref::<$t>().is_some() {
        if let Some(r) = ifc.data.get_mut::<$t>(TypedId::new(Id(id))).representation.custom_mut() { *r = TypedId::new(Id(rep as usize)); }
        return;
    } )* } }
    products!(prods);
    panic!("no product");
}

/// the representation: omitted, derived, given, and which
fn state(any: &dyn IfcType) -> Value {
    macro_rules! prods { ($($t:ident),*) => { $( if let Some(t) = any.downcast_ref::<$t>() {
        let r = &t.representation;
        return json!([r.is_omitted(), r.is_inherited(), r.is_custom(), r.custom().map(|r| r.id().0).unwrap_or(0)]);
    } )* } }
    products!(prods);
    json!([])
}

fn part(s: Option<StructureType<'_>>) -> (&'static str, String) {
    match s {
        None => ("none", String::new()),
        Some(StructureType::Wall(x)) => ("Wall", x.to_string()),
        Some(StructureType::Slab(x)) => ("Slab", x.to_string()),
        Some(StructureType::Roof(x)) => ("Roof", x.to_string()),
        Some(StructureType::Window(x)) => ("Window", x.to_string()),
        Some(StructureType::Door(x)) => ("Door", x.to_string()),
        Some(StructureType::ShadingDevice(x)) => ("ShadingDevice", x.to_string()),
    }
}

fn shape(any: &dyn IfcType) -> usize {
    macro_rules! shapes { ($($t:ident),*) => { $( if let Some(t) = any.downcast_ref::<$t>() { return TransformableType::shape(t).map(|s| s.id().0).unwrap_or(0); } )* } }
    shapeable!(shapes);
    0
}

/// number, text, in structure, part, shape, whether the structure and the part are this very instance, the representation
fn about(ifc: &IFC, id: usize) -> Value {
    let any = ifc.data.get_untyped(Id(id));
    let text = any.to_string();
    let s = any.to_structure();
    let (p, t) = part(s.and_then(|s| s.structure_type()));
    let same = s.is_none_or(|s| s.to_string() == text) && (p == "none" || t == text);
    json!([id, text, s.is_some(), p, shape(any), same, state(any)])
}

fn of(ifc: &IFC) -> Vec<Value> {
    macro_rules! of { ($($t:ident),*) => { vec![$({
        let f: Vec<usize> = ifc.data.find_all_of_type::<$t>().map(|(i, _)| i.id().0).collect();
        let same = ifc.data.find_all_of_type::<$t>().all(|(i, t)| t.to_string() == ifc.data.get_untyped(i).to_string());
        let g: Vec<usize> = ifc.data.id_of::<$t>().map(|i| i.id().0).collect();
        json!([stringify!($t), f, g, same])
    }),*] } }
    of!(
        Wall, Slab, Roof, Window, Door, ShadingDevice, Site, Building, Storey, Space, OpeningElement, Project, WallType, SlabType, RoofType,
        WindowType, DoorType, SpaceType, ShadingDeviceType, Material, ProductDefinitionShape, PropertySet, Organization, Dummy
    )
}

/// {"op":"kinds","text":..,"hist":[{op,id,k,rep,serial}]}
pub fn kinds(req: &Value) -> Value {
    let (r, ifc, msg) = crate::load::try_load(req["text"].as_str().unwrap());
    let Some(mut ifc) = ifc else {
        return json!({"r": r, "msg": msg});
    };
    let mut steps = vec![];
    for o in req["hist"].as_array().unwrap() {
        let (id, k, rep) = (o["id"].as_u64().unwrap() as usize, o["k"].as_str().unwrap(), o["rep"].as_i64().unwrap());
        let name = o["serial"].to_string();
        match o["op"].as_str().unwrap() {
            "insert" => put(&mut ifc, Some(id), k, &name, rep),
            "new" => put(&mut ifc, None, k, &name, rep),
            "remove" => {
                ifc.data.remove(Id(id));
            }
            "redirect" => redirect(&mut ifc, id, rep),
            "reshape" => reshape(&mut ifc, id, rep),
            _ => {}
        }
        let ids: Vec<usize> = req["ids"][steps.len()].as_array().unwrap().iter().map(|i| i.as_u64().unwrap() as usize).collect();
        let there: Vec<Value> = ids.iter().map(|&i| if ifc.data.contains(&Id(i)) { about(&ifc, i) } else { json!([i]) }).collect();
        steps.push(json!({"about": there, "of": of(&ifc)}));
    }
    json!({"r": "ok", "steps": steps})
}
