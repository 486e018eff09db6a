//! hlh <component>: reads one JSON input per line, runs the real code on it, writes one JSON observation per line.
//! A panic of the code under test is an observation: {"r":"panic"}.
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use serde_json::{json, Value};

mod amend;
mod cli;
mod doc;
mod fixup;
mod ident;
mod lines;
mod mk;
mod pdf;
mod pdfw;
mod refs;
mod runs;
mod store;
mod structure;

pub fn ok(v: Value) -> Value {
    json!({"r": "ok", "v": v})
}
pub fn err() -> Value {
    json!({"r": "err"})
}
pub fn bad(why: &str) -> Value {
    json!({"r": "bad", "why": why})
}
pub fn gs<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("HARNESS: no string field {k}"))
}

fn main() {
    if std::env::args().next().map_or(false, |a| a.ends_with("/editor")) {
        return cli::editor();
    }
    if std::env::args().nth(1).as_deref() == Some("child") {
        return store::child();
    }
    let comp = std::env::args().nth(1).expect("component");
    let f: fn(&Value) -> Value = match comp.as_str() {
        "amend" => amend::eval,
        "doc" => doc::eval,
        "fixup" => fixup::eval,
        "ident" => ident::eval,
        "lines" => lines::eval,
        "mk" => mk::eval,
        "session" => cli::session,
        "pdf" => pdf::eval,
        "refs" => refs::eval,
        "runs" => runs::eval,
        "store" => store::eval,
        "struct" => structure::eval,
        _ => panic!("unknown component {comp}"),
    };
    std::panic::set_hook(Box::new(|_| {}));
    let body = move || {
        let stdin = std::io::stdin();
        let stdout = std::io::stdout();
        let mut out = stdout.lock();
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            if line.is_empty() {
                continue;
            }
            let input: Value = serde_json::from_str(&line).expect("bad json");
            let res = match catch_unwind(AssertUnwindSafe(|| f(&input))) {
                Ok(v) => v,
                Err(e) => {
                    let msg = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    if msg.starts_with("HARNESS") {
                        bad(&msg)
                    } else {
                        json!({"r": "panic"})
                    }
                }
            };
            writeln!(out, "{res}").unwrap();
            out.flush().unwrap();
        }
    };
    std::thread::Builder::new().stack_size(256 << 20).spawn(body).unwrap().join().unwrap();
}
