#!/usr/bin/env python3
"""Regenerates harness/src/enums.rs from the table in spec/EnumApi.tla."""
import os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PRIVATE = {"ConversionUnitName"}      # not exported by the crate
spec = open(os.path.join(root, "spec", "EnumApi.tla")).read()
out = ["// generated by tools/genenum.py from spec/EnumApi.tla; do not edit", "use ifc_rs::prelude::*;", "",
       "pub fn table() -> Vec<(&'static str, Vec<(&'static str, String)>)> {", "    vec!["]
for m in re.finditer(r'\[enum \|-> "(\w+)", items \|-> << (.*?) >>\]', spec, re.S):
    if m.group(1) in PRIVATE:
        continue
    out.append('        ("%s", vec![' % m.group(1))
    out += ['            ("%s", %s::%s.to_string()),' % (v, m.group(1), v) for v in re.findall(r'<<"(\w+)", "', m.group(2))]
    out.append("        ]),")
out += ["    ]", "}"]
open(os.path.join(root, "harness", "src", "enums.rs"), "w").write("\n".join(out) + "\n")
