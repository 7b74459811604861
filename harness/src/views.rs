//! Changes loaded geometry and asks for its resolved views.
use bevy_math::{DVec2, DVec3};
use ifc_rs::prelude::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn num(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}

fn real(v: &Value) -> f64 {
    v.as_f64().unwrap()
}

fn tid<T: IfcType>(v: &Value) -> TypedId<T> {
    TypedId::new(Id(num(v)))
}

fn given<T: IfcType>(v: &Value) -> Option<TypedId<T>> {
    (v.as_i64().unwrap() > 0).then(|| tid(v))
}

/// [number, kind, references, numbers]
fn change(ifc: &mut IFC, e: &Value) {
    let (i, r, n) = (&e[0], &e[2], &e[3]);
    match e[1].as_str().unwrap() {
        "pt2" => *ifc.data.get_mut::<Point2D>(tid(i)) = Point2D::from(DVec2::new(real(&n[0]), real(&n[1]))),
        "pt3" => *ifc.data.get_mut::<Point3D>(tid(i)) = Point3D::from(DVec3::new(real(&n[0]), real(&n[1]), real(&n[2]))),
        "ax3" => {
            let a = ifc.data.get_mut::<Axis3D>(tid(i));
            a.location = tid(&r[0]);
            a.local_z = given(&r[1]).into();
            a.local_x = given(&r[2]).into();
        }
        "solid" => {
            let a = ifc.data.get_mut::<ExtrudedAreaSolid>(tid(i));
            a.swept_area = Id(num(&r[0]));
            a.position = given(&r[1]).into();
            a.extruded_direction = tid(&r[2]);
            a.depth = real(&n[0]).into();
        }
        "rep" => {
            let a = ifc.data.get_mut::<ShapeRepresentation>(tid(i));
            a.context_of_items = Id(num(&r[0]));
            a.items.0 = r.as_array().unwrap()[1..].iter().map(|x| Id(num(x))).collect();
        }
        "item" => {
            let a = ifc.data.get_mut::<MappedItem>(tid(i));
            a.source = tid::<RepresentationMap>(&r[0]).into();
            a.target = Id(num(&r[1]));
        }
        k => panic!("no change of {k}"),
    }
}

/// the reference becomes a copy of the part it names: [number, kind, place]
fn make_inline(ifc: &mut IFC, e: &Value) {
    let (i, place) = (&e[0], num(&e[2]));
    match (e[1].as_str().unwrap(), place) {
        ("rmap", 1) => {
            let id = ifc.data.get::<RepresentationMap>(tid(i)).origin.id().unwrap();
            let part = ifc.data.get(id).clone();
            ifc.data.get_mut::<RepresentationMap>(tid(i)).origin = IdOr::Custom(part);
        }
        ("rmap", _) => {
            let id = ifc.data.get::<RepresentationMap>(tid(i)).representation.id().unwrap();
            let part = copy_rep(ifc.data.get(id));
            ifc.data.get_mut::<RepresentationMap>(tid(i)).representation = IdOr::Custom(part);
        }
        ("item", _) => {
            let id = ifc.data.get::<MappedItem>(tid(i)).source.id().unwrap();
            let m = ifc.data.get(id);
            let part = RepresentationMap {
                origin: m.origin.clone(),
                representation: match &m.representation {
                    IdOr::Id(id) => IdOr::Id(*id),
                    IdOr::Custom(r) => IdOr::Custom(copy_rep(r)),
                },
            };
            ifc.data.get_mut::<MappedItem>(tid(i)).source = IdOr::Custom(part);
        }
        (k, _) => panic!("no inline part of {k}"),
    }
}

fn copy_rep(r: &ShapeRepresentation) -> ShapeRepresentation {
    ShapeRepresentation {
        context_of_items: r.context_of_items,
        representation_identifier: r.representation_identifier.clone(),
        representation_type: r.representation_type.clone(),
        items: r.items.clone(),
    }
}

struct Asker<'a> {
    ifc: &'a IFC,
    /// where the instances are
    at: std::collections::HashMap<*const (), usize>,
}

fn p2(p: DVec2) -> Value {
    json!([p.x, p.y])
}

/// the numbers a direction is written with
fn dir(d: &impl std::fmt::Display) -> Value {
    let t = d.to_string();
    let l = t.trim_start_matches("IFCDIRECTION").trim_matches(|c| "();".contains(c));
    json!(l.split(',').map(|x| x.parse::<f64>().unwrap()).collect::<Vec<_>>())
}

fn p3(p: DVec3) -> Value {
    json!([p.x, p.y, p.z])
}

/// an optional part
fn opt<T>(x: Option<T>, f: impl Fn(T) -> Value) -> Value {
    json!(x.map(f).into_iter().collect::<Vec<_>>())
}

fn axis2(a: MappedAxis2D) -> Value {
    json!([p2(***a.location), opt(a.local_x, dir)])
}

fn axis3(a: MappedAxis3D) -> Value {
    json!([p3(***a.location), opt(a.local_z, dir), opt(a.local_x, dir)])
}

fn points(p: Points) -> Value {
    match p {
        Points::D2(l) => json!(["2", l.into_iter().map(p2).collect::<Vec<_>>()]),
        Points::D3(l) => json!(["3", l.into_iter().map(p3).collect::<Vec<_>>()]),
    }
}

fn rect(r: MappedRectangleProfileDef) -> Value {
    let axis = opt(r.axis, |a| match a {
        AxisMappings::D2(a) => json!(["2", axis2(a)]),
        AxisMappings::D3(a) => json!(["3", axis3(a)]),
    });
    json!(["rect", axis, [r.x_dim, r.y_dim]])
}

fn arb(a: MappedArbitraryClosedProfileDef) -> Value {
    json!(["arb", a.profile_type.to_string().trim_matches('.'), points(a.points)])
}

fn solid(s: MappedExtrudedAreaSolid) -> Value {
    let profile = match s.profile_def {
        MappedProfileDef::Rectangle(r) => rect(r),
        MappedProfileDef::Arbitrary(a) => arb(a),
    };
    json!([profile, opt(s.position, axis3), dir(s.extruded_direction), [s.depth]])
}

fn op(t: MappedTransform) -> Value {
    let (k, b, more) = match t {
        MappedTransform::Uniform(u) => ("opu", *u, vec![]),
        MappedTransform::NonUniform(n) => ("opn", *n, vec![n.scale_y, n.scale_z]),
    };
    let d = |d: Option<&Direction3D>| opt(d, dir);
    let mut scales = vec![json!(opt(b.scale, |s| json!(s)))];
    scales.extend(more.into_iter().map(|s| opt(s, |s| json!(s))));
    json!([k, [d(b.axis_x), d(b.axis_y), opt(b.translation, |p| p3(***p)), d(b.axis_z)], scales])
}

impl Asker<'_> {
    fn number<T: ?Sized>(&self, x: &T) -> usize {
        self.at.get(&(x as *const T as *const ())).copied().unwrap_or(0)
    }

    fn rep(&self, r: &ShapeRepresentation) -> Value {
        let ifc = self.ifc;
        let items: Vec<Value> = r
            .items(ifc)
            .zip(r.items.iter())
            .map(|(i, id)| {
                // an item is written as the instance is
                assert_eq!(i.to_string(), ifc.data.get_untyped(*id).to_string(), "item #{}", id.0);
                i
            })
            .map(|i| match i {
                ShapeItemEnum::MappedItem(x) => json!(["MappedItem", self.number(x)]),
                ShapeItemEnum::ExtrudedAreaSolid(x) => json!(["ExtrudedAreaSolid", self.number(x)]),
                ShapeItemEnum::Dummy(x) => json!(["Dummy", self.number(x)]),
                ShapeItemEnum::Other(x) => json!(["Other", self.number(x)]),
            })
            .collect();
        let solids: Vec<usize> = r.items_of::<ExtrudedAreaSolid>(ifc).map(|x| self.number(x)).collect();
        let mapped: Vec<usize> = r.items_of::<MappedItem>(ifc).map(|x| self.number(x)).collect();
        let lines: Vec<usize> = r.items_of::<PolyLine>(ifc).map(|x| self.number(x)).collect();
        json!([items, solids, mapped, lines, self.number(r.parent_context(ifc))])
    }

    fn product(&self, x: &dyn IfcType) -> Value {
        macro_rules! try_all {
            ($($t:ty),*) => {$(
                if let Some(x) = x.downcast_ref::<$t>() {
                    let shapes: Vec<usize> = x.shapes(self.ifc).into_iter().map(|s| self.number(s)).collect();
                    return json!(shapes);
                }
            )*};
        }
        try_all!(Wall, Slab, Roof, Window, Door, Space);
        panic!("no product")
    }

    fn view(&self, id: usize) -> Value {
        let ifc = self.ifc;
        let x = ifc.data.get_untyped(Id(id));
        if let Some(x) = x.downcast_ref::<Axis2D>() {
            axis2(x.mappings(ifc))
        } else if let Some(x) = x.downcast_ref::<Axis3D>() {
            axis3(x.mappings(ifc))
        } else if let Some(x) = x.downcast_ref::<PolyLine>() {
            points(x.points(ifc))
        } else if let Some(x) = x.downcast_ref::<RectangleProfileDef>() {
            rect(x.mappings(ifc))
        } else if let Some(x) = x.downcast_ref::<ArbitraryClosedProfileDef>() {
            arb(x.mappings(ifc))
        } else if let Some(x) = x.downcast_ref::<ExtrudedAreaSolid>() {
            solid(x.mappings(ifc))
        } else if let Some(x) = x.downcast_ref::<CartesianTransformationOperator3D>() {
            op(MappedTransform::Uniform(x.mappings(ifc)))
        } else if let Some(x) = x.downcast_ref::<CartesianTransformationOperator3DnonUniform>() {
            op(MappedTransform::NonUniform(x.mappings(ifc)))
        } else if let Some(x) = x.downcast_ref::<MappedItem>() {
            let ((origin, shape), transform) = x.mappings(ifc);
            json!([axis3(origin), self.number(shape), self.rep(shape), op(transform)])
        } else if let Some(x) = x.downcast_ref::<ShapeRepresentation>() {
            self.rep(x)
        } else {
            self.product(x)
        }
    }
}

/// {"op":"views","text":..,"ids":[..],"edits":[..],"inline":[..],"ask":[..]}
pub fn views(req: &Value) -> Value {
    let (r, ifc, msg) = crate::load::try_load(req["text"].as_str().unwrap());
    let Some(mut ifc) = ifc else {
        return json!({"r": r, "msg": msg});
    };
    for e in req["edits"].as_array().unwrap() {
        change(&mut ifc, e);
    }
    for e in req["inline"].as_array().unwrap() {
        make_inline(&mut ifc, e);
    }
    let at = req["ids"]
        .as_array()
        .unwrap()
        .iter()
        .map(|i| (ifc.data.get_untyped(Id(num(i))) as *const dyn IfcType as *const (), num(i)))
        .collect();
    let asker = Asker { ifc: &ifc, at };
    let views: Vec<Value> = req["ask"]
        .as_array()
        .unwrap()
        .iter()
        .map(|i| catch_unwind(AssertUnwindSafe(|| asker.view(num(i)))).unwrap_or(json!("panic")))
        .collect();
    json!({"r": "ok", "views": views})
}
