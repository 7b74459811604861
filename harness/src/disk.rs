//! C32: models in files. Everything happens in a scratch folder of its own.
use ifc_rs::prelude::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

static N: AtomicUsize = AtomicUsize::new(0);

fn scratch() -> PathBuf {
    let p = std::env::temp_dir().join(format!("ifc-disk-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(p.join("dir/c.IFC")).unwrap();
    p
}

/// header, statements, footer
fn pieces(text: &str) -> Vec<Vec<u8>> {
    let (mut parts, mut cur, mut quoted) = (vec![], String::new(), false);
    for c in text.chars() {
        if c == '\'' {
            quoted = !quoted;
        }
        cur.push(c);
        if c == ';' && !quoted {
            parts.push(std::mem::take(&mut cur));
        }
    }
    parts.push(cur);
    let data = parts.iter().position(|p| p.trim() == "DATA;").unwrap();
    let end = parts.iter().rposition(|p| p.trim() == "ENDSEC;").unwrap();
    let mut out = vec![parts[..=data].concat()];
    out.extend(parts[data + 1..end].iter().cloned());
    out.push(parts[end..].concat());
    out.into_iter().map(String::into_bytes).collect()
}

fn names(ifc: &IFC) -> Vec<String> {
    let mut v: Vec<String> = ifc.data.find_all_of_type::<Material>().map(|(_, m)| m.material.custom().map(|s| s.0.clone()).unwrap_or_default()).collect();
    v.sort();
    v
}

/// {"op":"disk","hist":[{op,p,i,x}]}; x are the very texts
pub fn disk(req: &Value) -> Value {
    let dir = scratch();
    let r = catch_unwind(AssertUnwindSafe(|| run(&dir, req["hist"].as_array().unwrap())));
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Ok(steps) => json!({"r": "ok", "steps": steps}),
        Err(_) => json!({"r": "panic"}),
    }
}

fn run(dir: &Path, hist: &[Value]) -> Vec<Value> {
    let mut ifc = IFC::default();
    let mut files: std::collections::HashMap<String, Vec<Vec<u8>>> = Default::default();
    let header = pieces(&ifc.to_string());
    let mut steps = vec![];
    for o in hist {
        let (p, x, i) = (o["p"].as_str().unwrap(), o["x"].as_str().unwrap(), o["i"].as_u64().unwrap() as usize);
        let path = dir.join(p);
        let mut ok = true;
        match o["op"].as_str().unwrap() {
            "load" => match IFC::from_file(&path) {
                Ok(new) => ifc = new,
                Err(_) => ok = false,
            },
            "save" => {
                let t = ifc.to_string();
                files.insert(p.into(), pieces(&t));
                std::fs::write(&path, t).unwrap();
            }
            "add" => {
                ifc.data.insert_new(Material::new(x));
            }
            "erase" => {
                files.remove(p);
                std::fs::remove_file(&path).unwrap();
            }
            op => {
                let f = files.get_mut(p).unwrap();
                if op == "tear" {
                    f.remove(i - 1);
                } else {
                    let piece = match x {
                        "H" => header[0].clone(),
                        "F" => header[header.len() - 1].clone(),
                        "BAD" => vec![b'\n', 0xff, 0xfe, 0x80],
                        "BADNAME" => [b"\n#999999=IFCMATERIAL('", &[0xc3u8, 0x28, 0xff][..], b"',$,$);"].concat(),
                        "STRAY" => b"\nstray\n".to_vec(),
                        x => format!("\n#{}=IFCMATERIAL('{x}',$,$);", 1000000 + steps.len()).into_bytes(),
                    };
                    f.insert(i - 1, piece);
                }
                std::fs::write(&path, f.concat()).unwrap();
            }
        }
        steps.push(json!([ok, names(&ifc)]));
    }
    steps
}
