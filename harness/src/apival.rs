//! Arguments of constructors and setters, as the specification writes them (spec/Api.tla).
use bevy_math::{DVec2, DVec3};
use ifc_rs::prelude::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;

pub type Arg = Value;

pub fn text(a: &Arg) -> &str {
    a["s"].as_str().unwrap()
}
pub fn otext(a: &Arg) -> Option<&str> {
    let s = text(a);
    match a["k"].as_str().unwrap() {
        "ostr" => (s != "-").then_some(s),
        _ => (!s.is_empty()).then_some(s),
    }
}
pub fn ostr(a: &Arg) -> Option<&str> {
    otext(a)
}
pub fn form(a: &Arg) -> &str {
    a["f"].as_str().unwrap()
}
pub fn ty(a: &Arg) -> &str {
    a["ty"].as_str().unwrap()
}
fn n(s: &str) -> f64 {
    s.parse().unwrap()
}
pub fn real(a: &Arg) -> f64 {
    n(text(a))
}
pub fn int(a: &Arg) -> i64 {
    text(a).parse().unwrap()
}
pub fn num(a: &Arg) -> usize {
    text(a).parse().unwrap()
}
pub fn words(a: &Arg) -> Vec<String> {
    text(a).split_whitespace().map(|s| s.to_string()).collect()
}
pub fn ints(a: &Arg) -> Vec<i64> {
    words(a).iter().map(|s| s.parse().unwrap()).collect()
}
pub fn boolean(a: &Arg) -> bool {
    text(a) == "true"
}
pub fn time(a: &Arg) -> IfcTimestamp {
    IfcTimestamp(chrono::DateTime::from_timestamp(int(a), 0).unwrap())
}
pub fn id(a: &Arg) -> Id {
    Id(text(a).parse().unwrap())
}
pub fn oid(a: &Arg) -> Option<Id> {
    (!text(a).is_empty()).then(|| id(a))
}
pub fn ids(a: &Arg) -> Vec<Id> {
    words(a).iter().map(|s| Id(s.parse().unwrap())).collect()
}
pub fn typed<T: IfcType>(a: &Arg) -> TypedId<T> {
    TypedId::new(id(a))
}
pub fn typeds<T: IfcType>(a: &Arg) -> Vec<TypedId<T>> {
    ids(a).into_iter().map(TypedId::new).collect()
}
pub fn value(a: &Arg) -> IfcValue {
    let (k, v) = text(a).split_once(':').unwrap();
    match k {
        "label" => IfcValue::Label(LabelValue(v.into())),
        "identifier" => IfcValue::Identifier(IdentifierValue(v.into())),
        "real" => IfcValue::Real(RealValue::from(n(v))),
        "thermal" => IfcValue::ThermalTransmittance(ThermalTransmittanceValue::from(n(v))),
        "bool" => IfcValue::Bool(BoolValue((v == "true").into())),
        _ => panic!("value {k}"),
    }
}
fn v2(s: &str) -> DVec2 {
    let v: Vec<f64> = s.split_whitespace().map(n).collect();
    DVec2::new(v[0], v[1])
}
fn v3(s: &str) -> DVec3 {
    let v: Vec<f64> = s.split_whitespace().map(n).collect();
    DVec3::new(v[0], v[1], v[2])
}
pub fn vec2(a: &Arg) -> DVec2 {
    v2(text(a))
}
pub fn vec3(a: &Arg) -> DVec3 {
    v3(text(a))
}
pub fn vec2s(a: &Arg) -> std::vec::IntoIter<DVec2> {
    text(a).split(';').filter(|s| !s.is_empty()).map(v2).collect::<Vec<_>>().into_iter()
}
pub fn vec3s(a: &Arg) -> std::vec::IntoIter<DVec3> {
    text(a).split(';').filter(|s| !s.is_empty()).map(v3).collect::<Vec<_>>().into_iter()
}

thread_local! {
    static SAMPLES: RefCell<HashMap<String, Vec<Arg>>> = RefCell::new(HashMap::new());
}
pub fn sample(ty: &str) -> Vec<Arg> {
    SAMPLES.with(|s| s.borrow()[ty].clone())
}

/// req: text (base model), samples (type -> plain arguments), cases
pub fn api(req: &Value) -> Value {
    SAMPLES.with(|s| {
        for (k, v) in req["samples"].as_object().unwrap() {
            s.borrow_mut().insert(k.clone(), v.as_array().unwrap().clone());
        }
    });
    let text = req["text"].as_str().unwrap();
    let list: Vec<Value> = req["cases"]
        .as_array()
        .unwrap()
        .iter()
        .map(|c| {
            std::panic::catch_unwind(|| {
                let mut ifc: IFC = text.parse().unwrap();
                let ctor = c["ctor"].as_array().unwrap();
                let calls: Vec<(usize, Arg)> = c["calls"].as_array().unwrap().iter().map(|k| (k["i"].as_u64().unwrap() as usize, k["arg"].clone())).collect();
                let id = crate::api::build(c["ty"].as_str().unwrap(), ctor, &calls, &mut ifc);
                let out = ifc.to_string();
                let again = match out.parse::<IFC>() {
                    Ok(b) => json!({"same": b.to_string() == out, "opaque": b.data.find_all_of_type::<Dummy>().map(|(i, _)| i.id().0).collect::<Vec<_>>()}),
                    Err(e) => json!({"err": e.to_string()}),
                };
                json!({"id": id.0, "out": out, "again": again})
            })
            .unwrap_or_else(|e| json!({"panic": e.downcast_ref::<String>().cloned().unwrap_or_default()}))
        })
        .collect();
    json!({"r": "ok", "v": list})
}
