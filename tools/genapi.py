#!/usr/bin/env python3
"""Regenerates harness/src/api.rs (calls of the public constructors and setters) from the tables in spec/Api.tla."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from chk import tlc

T = tlc.run("ApiRuns", cfg="SPECIFICATION Spec\nCONSTANTS Mode = \"star\"\n Depth = 0\n Pairs = FALSE\nINVARIANTS DumpTable\nCHECK_DEADLOCK FALSE\n").cases[0]
classes = T["classes"]
by = {c["ty"]: c for c in classes}
# functions of the interface that are generic over the type of a parameter
GENERIC = {("ArbitraryClosedProfileDef", "new"), ("ExtrudedAreaSolid", "new"), ("LocalPlacement", "new"), ("RectangleProfileDef", "position"),
           ("GeometricRepresentationContext", "new"), ("GeometricRepresentationContext", "true_north"), ("Organization", "add_address"),
           ("Person", "add_address"), ("MappedItem", "new"), ("RelAssociatesMaterial", "new"), ("RelContainedInSpatialStructure", "new"),
           ("RelContainedInSpatialStructure", "relate_structure"), ("RelDeclares", "relate_definition"), ("RelDefinesByProperties", "new"),
           ("RelDefinesByProperties", "relate_obj"), ("RelDefinesByType", "new"), ("RelDefinesByType", "relate_obj"),
           ("RelFillsElement", "new"), ("RelVoidsElement", "new")}
STORING = ("ref", "val", "vals", "refs")
TUPLES = {"CartesianTransformationOperator3D": "{0}, ({1}, {2}, {3}), {4}",
          "CartesianTransformationOperator3DnonUniform": "{0}, ({1}, {2}, {3}), ({4}, {5}, {6})"}
LITERAL = {"ActorRole": [], "TelecomAddress": ["telephone_numbers", "facsimile_numbers", "email_addresses"], "PostalAddress": ["address_lines", "town"]}
out = ["// generated by tools/genapi.py from spec/Api.tla; do not edit",
       "#![allow(non_snake_case)]",
       "use crate::apival::*;", "use ifc_rs::prelude::*;", ""]


def expr(p, a, ty=None):
    """the Rust expression for argument variable a of parameter p, its type being ty"""
    k = p["k"]
    if k == "ref":
        return f"r_{ty}({a}, ifc)"
    if k == "tref":
        return f"typed::<{p['ty'][0]}>({a})"
    if k == "trefs":
        return f"typeds::<{p['ty'][0]}>({a})"
    if k == "val":
        return f"s_{ty}(ifc)"
    if k == "vals":
        return f"(0..num({a})).map(|_| s_{ty}(ifc)).collect::<Vec<_>>().into_iter()"
    if k == "refs":
        return f"words({a}).into_iter().map(|w| if w == \"v\" {{ IdOr::from(s_{p['ty'][0]}(ifc)) }} else {{ IdOr::from(Id(w.parse().unwrap())) }}).collect::<Vec<_>>()"
    if k == "enum":
        return f"e_{p['en']}(text({a}))"
    if k == "oenum":
        return f"otext({a}).map(e_{p['en']})"
    return {"str": "text", "ostr": "ostr", "real": "real", "int": "int", "ints": "ints", "bool": "boolean", "time": "time", "iref": "id",
            "oiref": "oid", "irefs": "ids", "value": "value", "vec2": "vec2", "vec3": "vec3", "dir2": "vec2", "dir3": "vec3",
            "vec2s": "vec2s", "vec3s": "vec3s"}[k] + f"({a})"


def call(cls, fn, ps, args, head):
    """match arms over the types of the polymorphic parameters"""
    multi = [i for i, p in enumerate(ps) if len(p["ty"]) > 1 and p["k"] in STORING]
    tail = ", ifc" if any(p["k"] in STORING for p in ps) else ""
    gen = (cls, fn) in GENERIC
    def one(tys):
        pre, es = [], []
        for i, p in enumerate(ps):
            e = expr(p, args[i], tys.get(i, p["ty"][0] if p["ty"] else None))
            if tail:
                pre.append(f"let x{i} = {e};")
                es.append(f"x{i}")
            else:
                es.append(e)
        if tail and len(ps) > 1:      # the order in which Rust evaluates the arguments
            pass
        body = TUPLES[cls].format(*es) if cls in TUPLES else ", ".join(es)
        gi = [i for i, p in enumerate(ps) if p["k"] in STORING and len(p["ty"]) > 1] or [i for i, p in enumerate(ps) if p["k"] in STORING]
        g = f"::<{tys.get(gi[0], ps[gi[0]]['ty'][0])}>" if gen else ""
        return "{ " + " ".join(pre) + f" {head(g, [tys.get(i) for i in multi])}({body}{tail}) }}"
    if not multi:
        return one({})
    arms = []
    for combo in itertools.product(*[ps[i]["ty"] for i in multi]):
        pat = ", ".join(f'"{t}"' for t in combo)
        arms.append(f"            ({pat},) => {one(dict(zip(multi, combo)))}")
    keys = ", ".join(f"ty({args[i]})" for i in multi)
    return "match (" + keys + ",) {\n" + "\n".join(arms) + "\n            t => panic!(\"type {t:?}\"),\n        }"


# constructors
for c in classes:
    ty, ps = c["ty"], c["par"]
    args = [f"&a[{i}]" for i in range(len(ps))]
    out.append(f"#[allow(unused_variables)]\npub fn c_{ty}(a: &[Arg], ifc: &mut IFC) -> {ty} {{")
    if ty in LITERAL:
        fs = [f"{p['a']}: {'e_Role(text(' + a + '))' if p['k'] == 'enum' else 'otext(' + a + ').map(|s| s.into()).into()'}" for p, a in zip(ps, args)]
        fs += [f"{n}: None.into()" for n in LITERAL[ty]]
        out.append(f"    {ty} {{ " + ", ".join(fs) + " }")
    else:
        out.append("    " + call(ty, c["ctor"], ps, args, lambda g, _: f"{ty}::{c['ctor']}{g}"))
    out.append("}")
    # a value with plain arguments, and the forms in which an instance is handed over
    out.append(f"pub fn s_{ty}(ifc: &mut IFC) -> {ty} {{ let a = sample(\"{ty}\"); c_{ty}(&a, ifc) }}")
    out.append(f"pub fn r_{ty}(a: &Arg, ifc: &mut IFC) -> IdOr<{ty}> {{ match form(a) {{ \"value\" => IdOr::from(s_{ty}(ifc)), "
               f"\"typed\" => IdOr::from(typed::<{ty}>(a)), \"id\" => IdOr::from(id(a)), \"idor\" => IdOr::Id(typed::<{ty}>(a)), f => panic!(\"form {{f}}\") }} }}")
    # setters
    out.append(f"#[allow(unused_variables, unused_mut)]\nfn m_{ty}(i: usize, x: &Arg, o: {ty}, ifc: &mut IFC) -> {ty} {{\n    match i {{")
    for i, s in enumerate(c["sets"]):
        if s["tr"]:
            arms = " ".join(f'"{t}" => {{ let x0 = r_{t}(x, ifc); {s["tr"]}::<{t}>::{s["fn"]}(o, x0, ifc) }}' for t in s["p"]["ty"])
            out.append(f"        {i + 1} => match ty(x) {{ {arms} t => panic!(\"type {{t:?}}\") }},")
        else:
            out.append(f"        {i + 1} => " + call(ty, s["fn"], [s["p"]], ["x"], lambda g, _: f"o.{s['fn']}{g}") + ",")
    out.append("        i => panic!(\"setter {i}\"),\n    }\n}")
out.append("pub fn build(ty: &str, ctor: &[Arg], calls: &[(usize, Arg)], ifc: &mut IFC) -> Id {\n    match ty {")
for c in classes:
    out.append(f"        \"{c['ty']}\" => {{ let mut o = c_{c['ty']}(ctor, ifc); for (i, x) in calls {{ o = m_{c['ty']}(*i, x, o, ifc); }} ifc.data.insert_new(o).id() }}")
out.append("        t => panic!(\"type {t}\"),\n    }\n}")
used = {p["en"] for c in classes for p in c["par"] + [s["p"] for s in c["sets"]] if p["en"]}
for e in T["enums"]:
    if e["enum"] in used:
        out.append(f"pub fn e_{e['enum']}(s: &str) -> {e['enum']} {{ match s {{ " + " ".join(f'"{v}" => {e["enum"]}::{v},' for v, _ in e["items"]) + " s => panic!(\"item {s}\") } }")
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "api.rs")
open(path, "w").write("\n".join(out) + "\n")
