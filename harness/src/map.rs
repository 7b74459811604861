//! C14, C15: the data map.
use crate::load::try_load;
use bevy_math::DVec3;
use ifc_rs::prelude::*;
use serde_json::{json, Value};

fn text(o: &dyn std::fmt::Display) -> String {
    let s = o.to_string();
    s.strip_suffix(';').unwrap_or(&s).to_string()
}

macro_rules! types {
    ($ifc:expr, $($t:ident),*) => { vec![$({
        let all: Vec<(u64, String)> = $ifc.data.find_all_of_type::<$t>().map(|(id, o)| (num(id.id()), text(o))).collect();
        let ids: Vec<u64> = $ifc.data.id_of::<$t>().map(|id| num(id.id())).collect();
        let got: Vec<String> = all.iter().map(|(id, _)| text($ifc.data.get::<$t>(TypedId::new(Id(*id as _))))).collect();
        (stringify!($t), all, ids, got)
    }),*] };
}

fn num(id: Id) -> u64 {
    id.0 as u64
}

type Seen = Vec<(&'static str, Vec<(u64, String)>, Vec<u64>, Vec<String>)>;

fn by_type(ifc: &IFC) -> Seen {
    types!(
        ifc, Material, Organization, PropertySingleValue, MaterialLayerSet, MaterialConstituentSet, MaterialLayer, Point3D, Point2D, Axis3D, Axis2D,
        LocalPlacement, MaterialLayerSetUsage, MaterialConstituent, PolyLine, RectangleProfileDef, Direction3D, Direction2D,
        ExtrudedAreaSolid, Wall, Door, Dummy
    )
}

fn contents(ifc: &IFC) -> Vec<(u64, &'static str, String)> {
    let mut v: Vec<_> = by_type(ifc)
        .into_iter()
        .flat_map(|(ty, all, _, _)| all.into_iter().map(move |(id, t)| (id, ty, t)))
        .collect();
    v.sort();
    v
}

fn observe(ifc: &IFC, ask: &[u64]) -> Value {
    let contains: Vec<bool> = ask.iter().map(|&i| ifc.data.contains(&Id(i as _))).collect();
    let resolve: Vec<Option<String>> = ask.iter().map(|&i| ifc.data.resolve(Id(i as _)).ok().map(|o| text(&o.to_string()))).collect();
    let untyped: Vec<Option<String>> = ask
        .iter()
        .map(|&i| ifc.data.contains(&Id(i as _)).then(|| text(&ifc.data.get_untyped(Id(i as _)).to_string())))
        .collect();
    json!({"types": by_type(ifc), "contains": contains, "resolve": resolve, "untyped": untyped, "out": ifc.to_string()})
}

fn prev(p: Option<Box<dyn IfcType>>) -> String {
    p.map(|o| text(&o.to_string())).unwrap_or("none".into())
}

fn r<T: IfcType>(id: TypedId<T>) -> String {
    format!("#{}", id.id().0)
}

fn apply(ifc: &mut IFC, o: &Value) -> String {
    let id = || Id(o["id"].as_u64().unwrap() as _);
    let v = o["v"].as_str().unwrap_or("");
    let ty = o["ty"].as_str().unwrap_or("");
    let prop = |v: &str| PropertySingleValue::new(v, IfcValue::Label(LabelValue(v.into())), None);
    match (o["op"].as_str().unwrap(), ty) {
        ("insert", "Material") => prev(ifc.data.insert(id(), Material::new(v))),
        ("insert", "Organization") => prev(ifc.data.insert(id(), Organization::new(None, v, None))),
        ("insert", _) => prev(ifc.data.insert(id(), prop(v))),
        ("new", "Material") => r(ifc.data.insert_new(Material::new(v))),
        ("new", "Organization") => r(ifc.data.insert_new(Organization::new(None, v, None))),
        ("new", _) => r(ifc.data.insert_new(prop(v))),
        ("absent", "MaterialLayerSet") => {
            ifc.data.insert_if_not_exists::<MaterialLayerSet>(id());
            "none".into()
        }
        ("absent", _) => {
            ifc.data.insert_if_not_exists::<MaterialConstituentSet>(id());
            "none".into()
        }
        ("remove", _) => prev(ifc.data.remove(id())),
        ("modify", _) => {
            if ifc.data.find_all_of_type::<Material>().any(|(i, _)| i.id() == id()) {
                *ifc.data.get_mut::<Material>(TypedId::new(id())) = Material::new(v);
            } else if ifc.data.find_all_of_type::<Organization>().any(|(i, _)| i.id() == id()) {
                *ifc.data.get_mut::<Organization>(TypedId::new(id())) = Organization::new(None, v, None);
            } else {
                *ifc.data.get_mut::<PropertySingleValue>(TypedId::new(id())) = prop(v);
            }
            "none".into()
        }
        ("construct", _) => construct(ifc, o["kind"].as_str().unwrap(), v),
        x => panic!("unknown operation {x:?}"),
    }
}

fn p(x: f64) -> Point3D {
    Point3D::from(DVec3::new(x, 0., 0.))
}

fn construct(ifc: &mut IFC, kind: &str, v: &str) -> String {
    match kind {
        "layer" => {
            let l = MaterialLayer::new(1., false).material(Material::new(v), ifc);
            r(ifc.data.insert_new(l))
        }
        "axis" => {
            let a = Axis3D::new(p(1.), ifc);
            r(ifc.data.insert_new(a))
        }
        "usage" => {
            let m = ifc.data.insert_new(Material::new(v));
            let s = MaterialLayerSet::new()
                .add_layer(MaterialLayer::new(1., false).material(m, ifc), ifc)
                .add_layer(MaterialLayer::new(1., false).material(m, ifc), ifc);
            let u = MaterialLayerSetUsage::new(s, LayerSetDirectionEnum::Axis2, DirectionSenseEnum::Positive, 2., ifc);
            r(ifc.data.insert_new(u))
        }
        "placement" => {
            let l = LocalPlacement::new(Axis3D::new(p(2.), ifc), ifc);
            r(ifc.data.insert_new(l))
        }
        "constituents" => {
            let m = ifc.data.insert_new(Material::new(v));
            let s = MaterialConstituentSet::new().add_constituent(MaterialConstituent::new(m), ifc);
            r(ifc.data.insert_new(s))
        }
        "polyline" => {
            let l = PolyLine::from([p(1.), p(2.), p(3.)].into_iter(), ifc);
            r(ifc.data.insert_new(l))
        }
        _ => {
            let e = ExtrudedAreaSolid::new(
                RectangleProfileDef::new(ProfileType::Area, 1., 2.),
                Direction3D::from(DVec3::new(0., 0., 1.)),
                3.,
                ifc,
            );
            r(ifc.data.insert_new(e))
        }
    }
}

/// {"op":"map","text":file or null,"hist":[operations],"ask":[[numbers]]}: results and observations, step by step
pub fn map(req: &Value) -> Value {
    let mut ifc = match req["text"].as_str() {
        None => IFC::default(),
        Some(t) => match try_load(t) {
            (_, Some(ifc), _) => ifc,
            (r, None, msg) => return json!({"r": r, "msg": msg}),
        },
    };
    if let Some(pairs) = req["pairs"].as_array().filter(|p| !p.is_empty()) {
        let list: Vec<(Id, Box<dyn IfcType>)> = pairs
            .iter()
            .map(|p| {
                let v = p[2].as_str().unwrap();
                let t: Box<dyn IfcType> = match p[1].as_str().unwrap() {
                    "Material" => Box::new(Material::new(v)),
                    "Organization" => Box::new(Organization::new(None, v, None)),
                    _ => Box::new(PropertySingleValue::new(v, IfcValue::Label(LabelValue(v.into())), None)),
                };
                (Id(p[0].as_u64().unwrap() as _), t)
            })
            .collect();
        ifc.data = list.into();
    }
    let mut steps = Vec::new();
    for (o, ask) in req["hist"].as_array().unwrap().iter().zip(req["ask"].as_array().unwrap()) {
        let ask: Vec<u64> = ask.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        let res = apply(&mut ifc, o);
        steps.push(if ask.is_empty() { json!({"res": res}) } else { json!({"res": res, "obs": observe(&ifc, &ask)}) });
    }
    json!({"r": "ok", "steps": steps})
}

/// {"op":"mapdrive","seed":..,"n":..}: a history of random operations on a real data map
pub fn drive(req: &Value) -> Value {
    let mut s = req["seed"].as_u64().unwrap() * 2654435769 + 88172645463325252;
    let mut rnd = move |n: u64| {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        (s >> 11) % n
    };
    let mut ifc = IFC::default();
    let mut log = Vec::new();
    let n = req["n"].as_u64().unwrap();
    for i in 0..n {
        if rnd(60) == 0 {
            ifc = IFC::default();
            if rnd(2) == 0 {
                let mut t = String::new();
                for _ in 0..rnd(8) {
                    let id = 1 + rnd(50);
                    t += &format!("#{id}= {};\n", ["IFCMATERIAL('x',$,$)", "IFCUNKNOWN(1)", "IFCORGANIZATION($,'y',$,$,$)"][rnd(3) as usize]);
                }
                let t = format!("ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION((''),'2;1');\nFILE_NAME('','2021-03-04T05:06:07',(''),(''),'','','');\nFILE_SCHEMA(('IFC4'));\nENDSEC;\nDATA;\n{t}ENDSEC;\nEND-ISO-10303-21;\n");
                if let (_, Some(x), _) = try_load(&t) {
                    ifc = x;
                }
            }
            log.push(json!({"o": {"op": "reset"}, "res": "none", "obs": contents(&ifc)}));
            continue;
        }
        let v = format!("d{i}");
        let ty = ["Material", "Organization", "PropertySingleValue"][rnd(3) as usize];
        let id = if rnd(2) == 0 { rnd(12) } else { rnd(100) };
        let o = match rnd(12) {
            0..=2 => json!({"op": "insert", "id": id, "ty": ty, "v": v}),
            3 | 4 => json!({"op": "new", "ty": ty, "v": v}),
            5 => json!({"op": "absent", "id": id, "ty": (["MaterialLayerSet", "MaterialConstituentSet"][rnd(2) as usize])}),
            6..=8 => json!({"op": "remove", "id": id}),
            9 | 10 => {
                let c = contents(&ifc);
                let c: Vec<_> = c.iter().filter(|x| ["Material", "Organization", "PropertySingleValue"].contains(&x.1)).collect();
                if c.is_empty() {
                    continue;
                }
                json!({"op": "modify", "id": c[rnd(c.len() as u64) as usize].0, "v": v})
            }
            _ => json!({"op": "construct", "kind": (["layer", "axis", "usage", "placement", "constituents", "polyline", "rectangle"][rnd(7) as usize]), "v": v}),
        };
        let res = apply(&mut ifc, &o);
        log.push(json!({"o": o, "res": res, "obs": contents(&ifc)}));
    }
    json!({"r": "ok", "log": log})
}
