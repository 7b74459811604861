use ifc_rs::prelude::*;
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

pub type Fields = Vec<(&'static str, String)>;
pub type Inst = (String, &'static str, Fields, bool);

/// Loads a text; the result is "ok", "err" or "panic".
pub fn try_load(text: &str) -> (&'static str, Option<IFC>, String) {
    match catch_unwind(AssertUnwindSafe(|| IFC::from_str(text))) {
        Err(e) => (
            "panic",
            None,
            e.downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default(),
        ),
        Ok(Err(e)) => ("err", None, format!("{e:#}").chars().take(300).collect()),
        Ok(Ok(ifc)) => ("ok", Some(ifc), String::new()),
    }
}

/// {"op":"load","text":..,"want":"out,again,proj"}
pub fn load(req: &Value) -> Value {
    let want = req["want"].as_str().unwrap_or("out");
    let (r, ifc, msg) = try_load(req["text"].as_str().unwrap());
    let mut res = Map::new();
    res.insert("r".into(), json!(r));
    let Some(ifc) = ifc else {
        res.insert("msg".into(), json!(msg));
        return Value::Object(res);
    };
    let out = match catch_unwind(AssertUnwindSafe(|| ifc.to_string())) {
        Ok(out) => out,
        Err(_) => {
            res.insert("r".into(), json!("panic"));
            res.insert("msg".into(), json!("while writing"));
            return Value::Object(res);
        }
    };
    if want.contains("proj") {
        let mut insts = Vec::new();
        crate::gen::project(&ifc, &mut insts);
        let proj: Vec<Value> = insts
            .into_iter()
            .map(|(id, ty, f, got)| {
                let f: Map<String, Value> = f.into_iter().map(|(n, v)| (n.to_string(), json!(v))).collect();
                json!([id, ty, f, got])
            })
            .collect();
        res.insert("proj".into(), json!(proj));
        let dummies: Vec<Value> = ifc
            .data
            .find_all_of_type::<Dummy>()
            .map(|(id, d)| json!([id.id().0.to_string(), d.s]))
            .collect();
        res.insert("opaque".into(), json!(dummies));
    }
    if want.contains("texts") {
        res.insert("texts".into(), json!(crate::values::texts(&ifc)));
    }
    if want.contains("numbers") {
        res.insert("numbers".into(), json!(crate::values::numbers(&ifc)));
    }
    if want.contains("header") {
        res.insert("header".into(), header(&ifc));
    }
    if want.contains("again") {
        let (r, ifc, msg) = try_load(&out);
        let same = ifc.as_ref().map(|ifc| ifc.to_string() == out).unwrap_or(false);
        let mut again = Map::new();
        again.insert("r".into(), json!(r));
        again.insert("msg".into(), json!(msg));
        again.insert("same".into(), json!(same));
        if let (true, Some(ifc)) = (want.contains("header"), &ifc) {
            again.insert("header".into(), header(ifc));
        }
        if let (Some(ifc), false) = (ifc, same) {
            again.insert("out".into(), json!(ifc.to_string()));
        }
        res.insert("again".into(), Value::Object(again));
    }
    res.insert("out".into(), json!(out));
    Value::Object(res)
}

/// everything the header exposes
pub fn header(ifc: &IFC) -> Value {
    let h = &ifc.header;
    json!({
        "views": h.description.descriptions.iter().map(|d| json!({"name": d.name, "items": d.items})).collect::<Vec<_>>(),
        "level": h.description.implementation_level.to_string(),
        "name": h.name.name.0,
        "time": h.name.timestamp.0.timestamp(),
        "authors": h.name.author.iter().map(|a| a.0.clone()).collect::<Vec<_>>(),
        "orgs": h.name.organization.iter().map(|a| a.0.clone()).collect::<Vec<_>>(),
        "prep": h.name.preprocessor_version.0,
        "sys": h.name.originating_system.0,
        "auth": h.name.authorization.0,
        "schemas": h.schema.0.iter().map(|s| s.to_string()).collect::<Vec<_>>(),
    })
}
