//! Texts and numbers given through the public interface, and what is loaded again.
use crate::load::try_load;
use bevy_math::{DVec2, DVec3};
use ifc_rs::prelude::*;
use serde_json::{json, Value};

/// every text a user can get at in some entities
pub fn texts(ifc: &IFC) -> Vec<(&'static str, String)> {
    let mut out = vec![("header name", ifc.header.name.name.0.clone())];
    for (_, o) in ifc.data.find_all_of_type::<Material>() {
        out.extend(o.material.custom().map(|s| ("Material.name", s.0.clone())));
        out.extend(o.description.custom().map(|s| ("Material.description", s.0.clone())));
        out.extend(o.category.custom().map(|s| ("Material.category", s.0.clone())));
    }
    for (_, o) in ifc.data.find_all_of_type::<Organization>() {
        out.extend(o.id.custom().map(|s| ("Organization.id", s.0.clone())));
        out.push(("Organization.name", o.name.0.clone()));
        out.extend(o.description.custom().map(|s| ("Organization.description", s.0.clone())));
    }
    for (_, o) in ifc.data.find_all_of_type::<Person>() {
        out.extend(o.family_name.custom().map(|s| ("Person.family_name", s.0.clone())));
        for l in o.middle_names.custom() {
            for s in l.iter() {
                out.push(("Person.middle_names", s.0.clone()));
            }
        }
    }
    for (_, o) in ifc.data.find_all_of_type::<PropertySingleValue>() {
        match &o.value {
            IfcValue::Label(LabelValue(s)) => out.push(("LabelValue", s.0.clone())),
            IfcValue::Identifier(IdentifierValue(s)) => out.push(("IdentifierValue", s.0.clone())),
            _ => {}
        }
    }
    out
}

/// {"op":"texts","s":..}: a text in many places of a model made through the interface
pub fn texts_api(req: &Value) -> Value {
    let s = req["s"].as_str().unwrap();
    let mut ifc = IFC::default();
    ifc.header.name.name.0 = s.to_string();
    ifc.data.insert_new(Material::new(s).description(s).category(s));
    ifc.data.insert_new(Organization::new(Some(s), s, Some(s)));
    ifc.data
        .insert_new(Person::empty().family_name(s).add_middle_name(s).add_middle_name("m").add_middle_name(s));
    ifc.data
        .insert_new(PropertySingleValue::new("n", IfcValue::Label(LabelValue(s.into())), None));
    ifc.data
        .insert_new(PropertySingleValue::new("n", IfcValue::Identifier(IdentifierValue(s.into())), None));
    let given = texts(&ifc);
    let out = ifc.to_string();
    let (r, back, msg) = try_load(&out);
    json!({"r": "ok", "given": given, "out": out, "again": r, "msg": msg, "back": back.as_ref().map(texts)})
}

/// {"op":"numbers","v":[literals]}: numbers in many places of a model made through the interface
pub fn numbers_api(req: &Value) -> Value {
    let v: Vec<f64> = req["v"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect();
    let (x, y, z) = (v[0], v[1 % v.len()], v[2 % v.len()]);
    let mut ifc = IFC::default();
    ifc.data.insert_new(Point2D::from(DVec2::new(x, y)));
    ifc.data.insert_new(Point3D::from(DVec3::new(x, y, z)));
    ifc.data.insert_new(PointList2D::new([DVec2::new(x, y), DVec2::new(z, x)].into_iter()));
    ifc.data.insert_new(PointList3D::new([DVec3::new(x, y, z), DVec3::new(z, x, y)].into_iter()));
    ifc.data.insert_new(MaterialLayer::new(x, false));
    ifc.data
        .insert_new(PropertySingleValue::new("n", IfcValue::Real(RealValue(y.into())), None));
    ifc.data
        .insert_new(RectangleProfileDef::new(ProfileType::Area, x, y));
    ifc.data.insert_new(Building::new("b").elevation_of_ref_height(x).elevation_of_terrain(z));
    let out = ifc.to_string();
    let (r, back, msg) = try_load(&out);
    json!({"r": "ok", "out": out, "again": r, "msg": msg, "out2": back.map(|b| b.to_string())})
}

/// numbers as a user gets them, as bit patterns
pub fn numbers(ifc: &IFC) -> Vec<(String, Vec<String>)> {
    let mut out = Vec::new();
    let s = |x: f64| format!("{x:e}");
    for (id, o) in ifc.data.find_all_of_type::<Point2D>() {
        out.push((id.id().0.to_string(), vec![s(o.x), s(o.y)]));
    }
    for (id, o) in ifc.data.find_all_of_type::<Point3D>() {
        out.push((id.id().0.to_string(), vec![s(o.x), s(o.y), s(o.z)]));
    }
    for (id, o) in ifc.data.find_all_of_type::<MaterialLayer>() {
        out.push((id.id().0.to_string(), vec![s(o.layer_thickness.0)]));
    }
    for (id, o) in ifc.data.find_all_of_type::<PropertySingleValue>() {
        match &o.value {
            IfcValue::Real(RealValue(x)) => out.push((id.id().0.to_string(), vec![s(x.0)])),
            IfcValue::ThermalTransmittance(ThermalTransmittanceValue(x)) => out.push((id.id().0.to_string(), vec![s(x.0)])),
            _ => {}
        }
    }
    out
}
