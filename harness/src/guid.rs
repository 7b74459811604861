//! C13: global ids.
use crate::load::try_load;
use ifc_rs::prelude::*;
use serde_json::{json, Value};

fn hex(g: &IfcGloballyUniqueId) -> String {
    format!("{:032x}", g.verif_to_u128())
}

/// {"op":"guids","hex":[..]}: the compressed forms of 128-bit values
pub fn guids(req: &Value) -> Value {
    let v: Vec<Value> = req["hex"]
        .as_array()
        .unwrap()
        .iter()
        .map(|h| {
            let g = IfcGloballyUniqueId::verif_from_u128(u128::from_str_radix(h.as_str().unwrap(), 16).unwrap());
            json!([g.base64_ifc_string(), g.to_string(), hex(&g)])
        })
        .collect();
    json!({"r": "ok", "v": v})
}

/// {"op":"guidfile","text":..}: the values of the global ids in a file
pub fn guidfile(req: &Value) -> Value {
    let (r, ifc, msg) = try_load(req["text"].as_str().unwrap());
    let Some(ifc) = ifc else { return json!({"r": r, "msg": msg}) };
    let mut v = Vec::new();
    for (id, o) in ifc.data.find_all_of_type::<PropertySet>() {
        v.push((id.id().0.to_string(), hex(&o.global_id)));
    }
    for (id, o) in ifc.data.find_all_of_type::<RelAggregates>() {
        v.push((id.id().0.to_string(), hex(&o.global_id)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Door>() {
        v.push((id.id().0.to_string(), hex(&o.global_id)));
    }
    for (id, o) in ifc.data.find_all_of_type::<SpaceType>() {
        v.push((id.id().0.to_string(), hex(&o.global_id)));
    }
    for (id, o) in ifc.data.find_all_of_type::<Project>() {
        v.push((id.id().0.to_string(), hex(&o.global_id)));
    }
    json!({"r": "ok", "v": v, "out": ifc.to_string()})
}

/// {"op":"newids","n":..}: fresh ids
pub fn newids(req: &Value) -> Value {
    let n = req["n"].as_u64().unwrap();
    let v: Vec<Value> = (0..n)
        .map(|i| {
            if i % 3 == 0 {
                let o = Project::new("n");
                return json!([o.global_id.base64_ifc_string(), hex(&o.global_id)]);
            }
            let g = IfcGloballyUniqueId::new_v4();
            json!([g.base64_ifc_string(), hex(&g)])
        })
        .collect();
    json!({"r": "ok", "v": v})
}
