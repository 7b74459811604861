//! Asks the extractor everything about a loaded and edited model.
use ifc_rs::prelude::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn name(n: impl ToString) -> Value {
    json!(n.to_string())
}

fn edit(ifc: &mut IFC, id: usize, members: &[usize]) {
    if members.is_empty() {
        ifc.data.remove(Id(id));
        return;
    }
    let list: Vec<Id> = members.iter().map(|m| Id(*m)).collect();
    let any = ifc.data.get_untyped(Id(id));
    if any.downcast_ref::<RelAggregates>().is_some() {
        ifc.data.get_mut::<RelAggregates>(TypedId::new(Id(id))).related_objects.0 = list;
    } else if any.downcast_ref::<RelContainedInSpatialStructure>().is_some() {
        ifc.data.get_mut::<RelContainedInSpatialStructure>(TypedId::new(Id(id))).related_elements.0 = list;
    } else {
        ifc.data.get_mut::<RelDefinesByType>(TypedId::new(Id(id))).related_objects.0 = list;
    }
}

fn ids<T: IfcType>(ifc: &IFC) -> Vec<TypedId<T>> {
    ifc.data.find_all_of_type::<T>().map(|(i, _)| i).collect()
}

/// {"op":"extract","text":..,"edits":[[number,[members]]]}
pub fn extract(req: &Value) -> Value {
    let (r, ifc, msg) = crate::load::try_load(req["text"].as_str().unwrap());
    let Some(mut ifc) = ifc else {
        return json!({"r": r, "msg": msg});
    };
    for e in req["edits"].as_array().unwrap() {
        let members: Vec<usize> = e[1].as_array().unwrap().iter().map(|m| m.as_u64().unwrap() as usize).collect();
        edit(&mut ifc, e[0].as_u64().unwrap() as usize, &members);
    }
    let ex = IfcExtractor::from(ifc);
    // the answers are names, or whole instances
    let whole = req["whole"].as_bool().unwrap_or(false);
    macro_rules! shown {
        ($o:expr) => {{
            let o = $o;
            if whole {
                json!(o.to_string())
            } else {
                name(&o.name)
            }
        }};
    }
    let mut out: Vec<Value> = Vec::new();
    let mut asked = 0;
    let mut put = |q: &str, x: usize, k: &str, r: Vec<Value>| {
        asked += 1;
        if !r.is_empty() {
            out.push(json!([q, x, k, r]));
        }
    };
    put("projects", 0, "", ex.projects().map(|(i, p)| json!([i.id().0, name(&p.name)])).collect());
    macro_rules! parts {
        ($a:ident; $($b:ident),*) => {
            for x in ids::<$a>(&ex) {
                $(put("parts", x.id().0, stringify!($b), ex.relations_of::<$a, $b>(x).map(|(i, o)| json!([i.id().0, name(&o.name)])).collect());)*
            }
        };
    }
    parts!(Project; Site, Building, Storey, Space, Wall, Project);
    parts!(Site; Site, Building, Storey, Space, Wall, Project);
    parts!(Building; Site, Building, Storey, Space, Wall, Project);
    parts!(Storey; Site, Building, Storey, Space, Wall, Project);
    parts!(Space; Site, Building, Storey, Space, Wall, Project);
    parts!(Wall; Site, Building, Storey, Space, Wall, Project);
    macro_rules! content {
        ($($a:ident),*) => {$(
            for x in ids::<$a>(&ex) {
                let n = x.id().0;
                put("content", n, "", ex.contained_structures(x).map(|i| json!(i.0)).collect());
                put("voids", n, "", ex.related_voids(x).map(|o| shown!(o)).collect());
                put("layers", n, "", ex.related_materials(x).map(|o| shown!(o)).collect());
                put("constituents", n, "", ex.related_constiuents(x).map(|o| shown!(o)).collect());
            }
        )*};
    }
    content!(Site, Building, Storey, Space, Wall, Slab, Roof, Window, Door, ShadingDevice, OpeningElement);
    macro_rules! types {
        ($($a:ident $t:ident),*) => {$(
            for x in ids::<$a>(&ex) {
                // an element without a type has no answer
                let t = catch_unwind(AssertUnwindSafe(|| shown!(TypeRelation::<$a, $t>::related_type(&ex, x))));
                put("type", x.id().0, "", t.into_iter().collect());
            }
        )*};
    }
    types!(Wall WallType, Slab SlabType, Roof RoofType, Window WindowType, Door DoorType);
    json!({"r": "ok", "asked": asked, "given": out})
}
