//! Executes programs of builder calls (spec/BuilderRuns.tla).
use crate::api::*;
use bevy_math::{DQuat, DVec2, DVec3};
use ifc_rs::prelude::*;
use serde_json::{json, Value};
use std::str::FromStr;

const UNIT: f64 = 16.0;

/// the id behind a handle, 0 where the interface gives none
#[derive(Default)]
struct Env {
    ids: Vec<Id>,
}

fn ints(v: &Value) -> Vec<f64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as f64).collect()
}
fn vec3(v: &Value, unit: f64) -> DVec3 {
    let v = ints(v);
    DVec3::new(v[0] / unit, v[1] / unit, v[2] / unit)
}
fn pts2(c: &Value) -> Vec<DVec2> {
    c["pts"].as_array().unwrap().iter().map(|p| { let p = ints(p); DVec2::new(p[0] / UNIT, p[1] / UNIT) }).collect()
}
fn pts3(c: &Value) -> Vec<DVec3> {
    c["pts"].as_array().unwrap().iter().map(|p| vec3(p, UNIT)).collect()
}
fn n(c: &Value) -> &str {
    c["n"].as_str().unwrap()
}
fn s(c: &Value, i: usize) -> &str {
    c["s"][i].as_str().unwrap()
}
fn at(c: &Value) -> DVec3 {
    vec3(&c["v"], UNIT)
}
fn dir(c: &Value) -> DVec3 {
    vec3(&c["dir"], 1.0)
}
fn dim(c: &Value, i: usize) -> f64 {
    c["d"][i].as_i64().unwrap() as f64 / UNIT
}
fn v(c: &Value, i: usize) -> f64 {
    c["v"][i].as_i64().unwrap() as f64 / UNIT
}

fn param(c: &Value) -> TransformParameter {
    let mut p = TransformParameter::default();
    for st in c["tp"].as_array().unwrap() {
        p = match st["s"].as_str().unwrap() {
            "t" => p.translation(vec3(&st["v"], UNIT)),
            "x" => p.x_rotation(vec3(&st["v"], 1.0)),
            "y" => p.y_rotation(vec3(&st["v"], 1.0)),
            "z" => p.z_rotation(vec3(&st["v"], 1.0)),
            _ => {
                let q = ints(&st["v"]);
                p.rotation(DQuat::from_xyzw(q[1], q[2], q[3], q[0]).normalize())
            }
        };
    }
    p
}

impl Env {
    fn push<T: IfcType>(&mut self, id: TypedId<T>) {
        self.ids.push(id.id());
    }
    fn none(&mut self) {
        self.ids.push(Id(0));
    }
    fn t<T: IfcType>(&self, c: &Value, i: usize) -> TypedId<T> {
        TypedId::new(self.ids[c["r"][i].as_u64().unwrap() as usize - 1])
    }
    fn ts<T: IfcType>(&self, c: &Value) -> Vec<TypedId<T>> {
        (0..c["r"].as_array().unwrap().len()).map(|i| self.t(c, i)).collect()
    }
    /// (name, value, unit) of every property of a call
    fn props(&self, c: &Value) -> Vec<(String, IfcValue, Option<Id>)> {
        c["p"].as_array().unwrap().iter().map(|p| {
            let x = p["v"].as_i64().unwrap();
            let value = match p["k"].as_str().unwrap() {
                "real" => IfcValue::Real(RealValue((x as f64 / UNIT).into())),
                "thermal" => IfcValue::ThermalTransmittance(ThermalTransmittanceValue((x as f64 / UNIT).into())),
                "bool" => IfcValue::Bool(BoolValue((x == 1).into())),
                "label" => IfcValue::Label(LabelValue(format!("text {x}").as_str().into())),
                _ => IfcValue::Identifier(IdentifierValue(format!("text {x}").as_str().into())),
            };
            let u = p["u"].as_u64().unwrap() as usize;
            let unit = (u > 0 && self.ids[u - 1].0 > 0).then(|| self.ids[u - 1]);
            (n(p).to_string(), value, unit)
        }).collect()
    }
}

type Calls<'p> = std::slice::Iter<'p, Value>;

fn wall(mut w: IfcWallBuilder, slot: usize, it: &mut Calls, e: &mut Env) {
    e.ids[slot] = w.get_id().id();
    while let Some(c) = it.next() {
        match c["op"].as_str().unwrap() {
            "close" => break,
            "vopening" => { let i = w.vertical_opening(n(c), OpeningParameter { height: dim(c, 1), length: dim(c, 0), placement: at(c) }); e.push(i) }
            "opening" => {
                let i = w.opening(n(c), CustomDirectionOpeningParameter { height: dim(c, 1), length: dim(c, 0), placement: at(c), direction: dir(c) });
                e.push(i)
            }
            "wwindow" => {
                let i = w.window_with_opening(e.t(c, 0), e.t(c, 1), n(c), WindowParameter { height: dim(c, 1), width: dim(c, 0), placement: at(c) }, Direction3D::from(dir(c)));
                e.none();
                e.push(i)
            }
            "wallprops" => {
                let ps = e.props(c);
                let mut b = w.add_properties(n(c));
                for (name, value, unit) in ps {
                    let _ = b.single_property(&name, value, unit);
                }
                drop(b);
                e.none()
            }
            "move" => w.transform(param(c)),
            op => panic!("wall call {op}"),
        }
    }
    assert_eq!(w.finish().id(), e.ids[slot]);
}

fn slab(mut w: IfcSlabBuilder, slot: usize, it: &mut Calls, e: &mut Env) {
    while let Some(c) = it.next() {
        match c["op"].as_str().unwrap() {
            "close" => break,
            "ropening" => { let i = w.rect_opening(n(c), OpeningParameter { height: dim(c, 1), length: dim(c, 0), placement: at(c) }); e.push(i) }
            "hopening" => { let i = w.horizontal_arbitrary_opening(n(c), HorizontalArbitraryOpeningParameter { coords: pts2(c) }); e.push(i) }
            "aopening" => { let i = w.arbitrary_opening(n(c), ArbitraryOpeningParameter { coords: pts3(c) }); e.push(i) }
            "rwindow" => {
                let i = w.window_with_opening(e.t(c, 0), e.t(c, 1), n(c), WindowParameter { height: dim(c, 1), width: dim(c, 0), placement: at(c) });
                e.none();
                e.push(i)
            }
            "hwindow" => {
                let i = w.horizontal_arbitrary_window_with_opening(e.t(c, 0), e.t(c, 1), n(c), HorizontalArbitraryWindowParameter { coords: pts2(c) });
                e.none();
                e.push(i)
            }
            "awindow" => {
                let i = w.arbitrary_window_with_opening(e.t(c, 0), e.t(c, 1), n(c), ArbitraryWindowParameter { coords: pts3(c) });
                e.none();
                e.push(i)
            }
            "move" => w.transform(param(c)),
            op => panic!("slab call {op}"),
        }
    }
    e.ids[slot] = w.finish().id();
}

fn storey(b: &mut IfcStoreyBuilder, it: &mut Calls, e: &mut Env) {
    while let Some(c) = it.next() {
        let slot = e.ids.len();
        match c["op"].as_str().unwrap() {
            "close" => return,
            "material" => { let i = b.material(n(c)); e.push(i) }
            "layer" => { let i = b.material_layer(n(c), MaterialLayer::new(v(c, 0), s(c, 0) == "T").name(s(c, 1))); e.push(i) }
            "layerset" => { let i = b.material_layer_set(e.ts(c)); e.push(i) }
            "usage" => { let i = b.material_layer_set_usage(e.t(c, 0), e_LayerSetDirectionEnum(s(c, 0)), e_DirectionSenseEnum(s(c, 2)), v(c, 0)); e.push(i) }
            "constituent" => { let i = b.material_constituent(n(c), s(c, 0)); e.push(i) }
            "cset" => { let i = b.material_constituent_set(e.ts(c)); e.push(i) }
            "walltype" => { let i = b.wall_type(e.t(c, 0), n(c), e_WallTypeEnum(s(c, 0))); e.push(i) }
            "slabtype" => { let i = b.slab_type(e.t(c, 0), n(c), e_SlabTypeEnum(s(c, 0))); e.push(i) }
            "rooftype" => { let i = b.roof_type(e.t(c, 0), n(c), e_RoofTypeEnum(s(c, 0))); e.push(i) }
            "shadingtype" => { let i = b.shading_device_type(e.t(c, 0), n(c), e_ShadingDeviceTypeEnum(s(c, 0))); e.push(i) }
            "windowtype" => { let i = b.window_type(n(c), e_WindowTypeEnum(s(c, 0)), e_WindowPartitioningTypeEnum(s(c, 2))); e.push(i) }
            "spacetype" => { let i = b.space_type(n(c), e_SpaceTypeEnum(s(c, 0))); e.push(i) }
            "space" => { let i = b.space(e.t(c, 0), n(c), SpaceParameter { coords: pts2(c), height: dim(c, 0), placement: at(c) }); e.push(i) }
            "roof" => { let i = b.horizontal_arbitrary_roof(e.t(c, 0), e.t(c, 1), n(c), HorizontalArbitraryRoofParameter { coords: pts2(c), placement: at(c) }); e.push(i) }
            "shading" => {
                let i = b.vertical_shading_device(e.t(c, 0), e.t(c, 1), n(c), VerticalShadingDeviceParameter { height: dim(c, 1), length: dim(c, 0), placement: at(c) });
                e.push(i)
            }
            "vwall" => {
                e.none();
                wall(b.vertical_wall(e.t(c, 0), e.t(c, 1), n(c), VerticalWallParameter { height: dim(c, 1), length: dim(c, 0), placement: at(c) }), slot, it, e)
            }
            "vawall" => {
                e.none();
                wall(b.vertical_arbitrary_wall(e.t(c, 0), e.t(c, 1), n(c), VerticalArbitraryWallParameter { coords: pts2(c), placement: at(c) }), slot, it, e)
            }
            "awall" => {
                e.none();
                wall(b.arbitrary_wall(e.t(c, 0), e.t(c, 1), n(c), ArbitraryWallParameter { coords: pts3(c), direction: dir(c), placement: at(c) }), slot, it, e)
            }
            "hslab" => {
                e.none();
                slab(b.horizontal_arbitrary_slab(e.t(c, 0), e.t(c, 1), n(c), HorizontalArbitrarySlabParameter { coords: pts2(c), placement: at(c) }), slot, it, e)
            }
            "vslab" => {
                e.none();
                let p = VerticalSlabParameter { start: DVec2::new(dim(c, 0), dim(c, 1)), end: DVec2::new(dim(c, 2), dim(c, 3)), height: dim(c, 4), placement: at(c) };
                slab(b.vertical_slab(e.t(c, 0), e.t(c, 1), n(c), p), slot, it, e)
            }
            "aslab" => {
                e.none();
                slab(b.arbitrary_slab(e.t(c, 0), e.t(c, 1), n(c), ArbitrarySlabParameter { coords: pts3(c), direction: dir(c), placement: at(c) }), slot, it, e)
            }
            "moveid" => {
                let p = param(c);
                match s(c, 0) {
                    "wall" => b.transform(e.t::<Wall>(c, 0), &p),
                    "slab" => b.transform(e.t::<Slab>(c, 0), &p),
                    "roof" => b.transform(e.t::<Roof>(c, 0), &p),
                    "shading" => b.transform(e.t::<ShadingDevice>(c, 0), &p),
                    "window" => b.transform(e.t::<Window>(c, 0), &p),
                    _ => b.transform(e.t::<OpeningElement>(c, 0), &p),
                }
            }
            "pset" => {
                let ps = e.props(c);
                let mut p = b.add_properties(n(c));
                for (name, value, unit) in ps {
                    let _ = p.single_property(&name, value, unit);
                }
                let i = p.finish();
                e.push(i)
            }
            "relate" => {
                let p = e.t::<PropertySet>(c, 0);
                match s(c, 0) {
                    "wall" => b.relate_properties_object(p, e.t::<Wall>(c, 1)),
                    "slab" => b.relate_properties_object(p, e.t::<Slab>(c, 1)),
                    "roof" => b.relate_properties_object(p, e.t::<Roof>(c, 1)),
                    "shading" => b.relate_properties_object(p, e.t::<ShadingDevice>(c, 1)),
                    "window" => b.relate_properties_object(p, e.t::<Window>(c, 1)),
                    "opening" => b.relate_properties_object(p, e.t::<OpeningElement>(c, 1)),
                    "space" => b.relate_properties_object(p, e.t::<Space>(c, 1)),
                    "walltype" => b.relate_properties_object(p, e.t::<WallType>(c, 1)),
                    "slabtype" => b.relate_properties_object(p, e.t::<SlabType>(c, 1)),
                    "rooftype" => b.relate_properties_object(p, e.t::<RoofType>(c, 1)),
                    "windowtype" => b.relate_properties_object(p, e.t::<WindowType>(c, 1)),
                    "spacetype" => b.relate_properties_object(p, e.t::<SpaceType>(c, 1)),
                    _ => b.relate_properties_object(p, e.t::<ShadingDeviceType>(c, 1)),
                }
            }
            op => panic!("storey call {op}"),
        }
    }
}

fn run(prog: &[Value], start: &Value) -> (String, Vec<Id>) {
    let t = |k: &str| start[k].as_str().unwrap().to_string();
    let (a, b, c, d, f, g, h) = (t("developer"), t("version"), t("application"), t("short"), t("person"), t("organization"), t("project"));
    let mut p = IfcProjectBuilder::new(
        ApplicationInfo { developer: Organization::new(None, a.as_str(), None), version: &b, name: &c, short_name: &d },
        OwnerInfo { owner: Person::empty().given_name(f.as_str()), organization_name: &g },
        &h,
    );
    let mut e = Env::default();
    let mut it = prog.iter();
    while let Some(c) = it.next() {
        if n(c).is_empty() && c["op"] == "close" {
            break;
        }
        e.none();
        let mut site = p.new_site(n(c), at(c));
        while let Some(c) = it.next() {
            if c["op"] == "close" {
                break;
            }
            e.none();
            let mut building = site.new_building(n(c), at(c));
            while let Some(c) = it.next() {
                if c["op"] == "close" {
                    break;
                }
                e.none();
                e.none();
                let mut b = building.new_storey(n(c), v(c, 0));
                storey(&mut b, &mut it, &mut e);
            }
        }
    }
    (p.build(), e.ids)
}

/// req: cases, each a program and the names of a project
pub fn build(req: &Value) -> Value {
    let list: Vec<Value> = req["cases"].as_array().unwrap().iter().map(|c| {
        match std::panic::catch_unwind(|| run(c["prog"].as_array().unwrap(), &c["who"])) {
            Err(e) => json!({"r": "panic", "msg": e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()}),
            Ok((out, ids)) => {
                let again = match std::panic::catch_unwind(|| IFC::from_str(&out).map(|i| i.to_string() == out)) {
                    Ok(Ok(true)) => "same".to_string(),
                    Ok(Ok(false)) => "different".to_string(),
                    Ok(Err(e)) => format!("not loaded: {e:#}"),
                    Err(_) => "panic".to_string(),
                };
                json!({"r": "ok", "out": out, "again": again, "ids": ids.iter().map(|i| i.0).collect::<Vec<_>>()})
            }
        }
    }).collect();
    json!({"r": "ok", "list": list})
}
