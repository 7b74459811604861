//! Executes the cases which the specification in /verif/spec generates on the real crate.
//! One JSON request per line on stdin, one JSON answer per line on stdout.
mod gen;
mod api;
mod apival;
mod builder;
mod enums;
mod extract;
mod disk;
mod kinds;
mod guid;
mod load;
mod map;
mod values;
mod views;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn dispatch(req: &Value) -> Value {
    match req["op"].as_str().unwrap_or("") {
        "load" => load::load(req),
        "texts" => values::texts_api(req),
        "numbers" => values::numbers_api(req),
        "api" => apival::api(req),
        "views" => views::views(req),
        "disk" => disk::disk(req),
        "kinds" => kinds::kinds(req),
        "extract" => extract::extract(req),
        "build" => builder::build(req),
        "guids" => guid::guids(req),
        "guidfile" => guid::guidfile(req),
        "newids" => guid::newids(req),
        "map" => map::map(req),
        "mapdrive" => map::drive(req),
        "enums" => json!({"r": "ok", "table": enums::table()}),
        op => json!({ "r": "unknown", "op": op }),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let req: Value = serde_json::from_str(&line).unwrap();
            let res = catch_unwind(AssertUnwindSafe(|| dispatch(&req))).unwrap_or_else(|e| {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                json!({ "r": "panic", "msg": msg })
            });
            serde_json::to_writer(&mut out, &res).unwrap();
            out.write_all(b"\n").unwrap();
            out.flush().unwrap();
        }
}
