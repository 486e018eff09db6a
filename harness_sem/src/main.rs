//! hls: reads one JSON input per line, runs the semantic parser on it, writes one JSON observation per line.
//! An input is an act and what is done to it: [{"ch": new children (optional), "do": "all" or the number of an article}].
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use hun_law::{identifier::ActIdentifier, parser::semantic_info::AbbreviationsChanged, structure::Act};
use serde_json::{json, Value};

/// what was found in each element, in the order in which they stand
fn infos(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Object(m) => {
            if m.contains_key("body") {
                let si = m.get("semantic_info");
                let get = |k: &str, d: Value| si.and_then(|s| s.get(k)).cloned().unwrap_or(d);
                let refs: Vec<Value> = get("outgoing_references", json!([]))
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|r| json!([r["start"], r["end"], r["reference"]]))
                    .collect();
                let sp = get("special_phrase", Value::Null);
                out.push(json!({"refs": refs, "ab": get("new_abbreviations", json!({})), "sp": if sp.is_null() { json!([]) } else { json!([sp]) }}));
                if let Some(c) = m["body"].get("children") {
                    if c.as_object().map_or(false, |c| c.keys().all(|k| k.ends_with("oint"))) {
                        infos(c, out);
                    }
                }
            } else {
                for x in m.values() {
                    infos(x, out);
                }
            }
        }
        Value::Array(l) => l.iter().for_each(|x| infos(x, out)),
        _ => (),
    }
}

/// the act without what was found
fn bare(v: &Value) -> Value {
    match v {
        Value::Object(m) => m.iter().filter(|(k, _)| *k != "semantic_info").map(|(k, x)| (k.clone(), bare(x))).collect::<serde_json::Map<_, _>>().into(),
        Value::Array(l) => l.iter().map(bare).collect(),
        x => x.clone(),
    }
}

fn eval(i: &Value) -> Value {
    let mut doc = i["act"].clone();
    let mut known: BTreeMap<String, ActIdentifier> = serde_json::from_value(i["known"].clone()).expect("HARNESS known");
    let mut out = vec![];
    for s in i["steps"].as_array().expect("HARNESS steps") {
        if let Some(ch) = s.get("ch") {
            doc["children"] = ch.clone();
        }
        let mut act: Act = serde_json::from_value(doc.clone()).unwrap_or_else(|e| panic!("HARNESS act: {e}"));
        act.contained_abbreviations = known.clone();
        let before = bare(&serde_json::to_value(&act.children).unwrap());
        let what = s["do"].as_str().expect("HARNESS do");
        let r = if what == "all" { act.add_semantic_info() } else { act.add_semantic_info_to_article(what.parse().expect("HARNESS article")) };
        known = act.contained_abbreviations.clone();
        doc = serde_json::to_value(&act).unwrap();
        let mut found = vec![];
        infos(&doc["children"], &mut found);
        out.push(match r {
            Ok(c) => json!({"r": "ok", "changed": c == AbbreviationsChanged::Yes, "known": known, "els": found, "same": bare(&doc["children"]) == before}),
            Err(_) => json!({"r": "err", "known": known}),
        });
        if out[out.len() - 1]["r"] == "err" {
            break;
        }
        if let Some(m) = doc.as_object_mut() {
            m.remove("contained_abbreviations");
        }
    }
    json!({"r": "ok", "v": out})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let body = || {
        let stdin = std::io::stdin();
        let stdout = std::io::stdout();
        let mut out = stdout.lock();
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            if line.is_empty() {
                continue;
            }
            let input: Value = serde_json::from_str(&line).expect("bad json");
            let res = match catch_unwind(AssertUnwindSafe(|| eval(&input))) {
                Ok(v) => v,
                Err(e) => {
                    let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    if msg.starts_with("HARNESS") {
                        json!({"r": "bad", "why": msg})
                    } else {
                        json!({"r": "panic"})
                    }
                }
            };
            writeln!(out, "{res}").unwrap();
        }
    };
    std::thread::Builder::new().stack_size(256 << 20).spawn(body).unwrap().join().unwrap();
}
