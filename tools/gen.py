#!/usr/bin/env python3
"""Regenerates harness/src/gen.rs (typed projections) from the schema table in spec/IfcSchema.tla."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from chk import tlc

PRIVATE = {("RelFillsElement", n) for n in ("global_id", "owner_history", "name", "description", "relating_opening_element")} \
    | {("RelVoidsElement", n) for n in ("global_id", "owner_history", "name", "description")} \
    | {("PropertySingleValue", n) for n in ("name", "description")} \
    | {("Direction2D", "0"), ("Direction3D", "0")}      # not public
SPECIAL = {("Point2D", "0"): 'format!("({:?},{:?})", o.x, o.y)', ("Point3D", "0"): 'format!("({:?},{:?},{:?})", o.x, o.y, o.z)'}
ents = tlc.run("Dump").cases
out = ["// generated by tools/gen.py from spec/IfcSchema.tla; do not edit", "use ifc_rs::prelude::*;",
       "#[allow(unused_imports)]", "use crate::load::{Inst, Fields};", ""]
out.append("pub fn project(ifc: &IFC, out: &mut Vec<Inst>) {")
for e in ents:
    if e["ty"] == "MaterialProperties":      # not exported by the crate
        continue
    ty = e["ty"]
    out.append(f"    for (id, o) in ifc.data.find_all_of_type::<{ty}>() {{")
    out.append("        let f: Fields = vec![")
    for a in e["f"]:
        if (ty, a["n"]) in PRIVATE:
            continue
        expr = SPECIAL.get((ty, a["n"]), f'o.{a["n"]}.to_string()')
        out.append(f'            ("{a["n"]}", {expr}),')
    out.append("        ];")
    out.append(f'        out.push((id.id().0.to_string(), "{e["ty"]}", f, std::ptr::eq(ifc.data.get::<{ty}>(id.clone()), o)));')
    out.append("    }")
out.append("}")
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "gen.rs")
open(path, "w").write("\n".join(out) + "\n")
