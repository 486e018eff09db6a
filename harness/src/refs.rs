use hun_law::identifier::*;
use hun_law::reference::builder::{ReferenceBuilder, ReferenceBuilderSetPart};
use hun_law::reference::parts::*;
use hun_law::reference::Reference;
use hun_law::util::compact_string::CompactString;
use serde_json::{json, Map, Value};

use crate::{bad, err, gs, ok};

fn pc<T: CompactString>(s: &str) -> T {
    T::from_compact_string(s).unwrap_or_else(|_| panic!("REFUSED: cannot parse {s}"))
}

/// Reference through deserialization, from five compact part notations
fn via_serde(v: &Value, yaml: bool) -> Option<Reference> {
    let mut o = Map::new();
    let s: Vec<&str> = v.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    if !s[0].is_empty() {
        o.insert("act".into(), serde_json::to_value(ActIdentifier::from_compact_string(s[0]).ok()?).unwrap());
    }
    if !s[1].is_empty() {
        o.insert("article".into(), serde_json::to_value(RefPartArticle::from_compact_string(s[1]).ok()?).unwrap());
    }
    if !s[2].is_empty() {
        o.insert("paragraph".into(), serde_json::to_value(RefPartParagraph::from_compact_string(s[2]).ok()?).unwrap());
    }
    if !s[3].is_empty() {
        o.insert("point".into(), serde_json::to_value(RefPartPoint::from_compact_string(s[3]).ok()?).unwrap());
    }
    if !s[4].is_empty() {
        o.insert("subpoint".into(), serde_json::to_value(RefPartSubpoint::from_compact_string(s[4]).ok()?).unwrap());
    }
    let j = Value::Object(o);
    if yaml {
        serde_yaml::from_str(&serde_yaml::to_string(&j).unwrap()).ok()
    } else {
        serde_json::from_value(j).ok()
    }
}

fn c(r: &Reference) -> String {
    r.compact_string().to_string()
}

fn res<E>(r: Result<Reference, E>) -> String {
    r.map_or("ERR".into(), |r| c(&r))
}

fn point_t(p: &RefPartPoint) -> &'static str {
    match p {
        RefPartPoint::Numeric(_) => "num",
        RefPartPoint::Alphabetic(_) => "letter",
    }
}
fn sub_t(p: &RefPartSubpoint) -> &'static str {
    match p {
        RefPartSubpoint::Numeric(_) => "num",
        RefPartSubpoint::Alphabetic(_) => "pre",
    }
}

fn last_view(r: &Reference) -> String {
    let p = r.get_last_part();
    let s = match &p {
        AnyReferencePart::Empty => "empty".to_string(),
        AnyReferencePart::Act(a) => format!("act:act:{}", a.compact_string()),
        AnyReferencePart::Article(a) => format!("art:art:{}", a.compact_string()),
        AnyReferencePart::Paragraph(a) => format!("para:num:{}", a.compact_string()),
        AnyReferencePart::Point(a) => format!("pt:{}:{}", point_t(a), a.compact_string()),
        AnyReferencePart::Subpoint(a) => format!("sub:{}:{}", sub_t(a), a.compact_string()),
    };
    // the accessors must agree with the variant
    let acc = [
        ("act:act", p.act().map(|x| x.compact_string().to_string())),
        ("art:art", p.article().map(|x| x.compact_string().to_string())),
        ("para:num", p.paragraph().map(|x| x.compact_string().to_string())),
        ("pt:num", p.numeric_point().map(|x| x.compact_string().to_string())),
        ("pt:letter", p.alphabetic_point().map(|x| x.compact_string().to_string())),
        ("sub:num", p.numeric_subpoint().map(|x| x.compact_string().to_string())),
        ("sub:pre", p.alphabetic_subpoint().map(|x| x.compact_string().to_string())),
    ];
    let hits: Vec<String> = acc.iter().filter_map(|(k, v)| v.as_ref().map(|v| format!("{k}:{v}"))).collect();
    let want: Vec<String> = if s == "empty" { vec![] } else { vec![s.clone()] };
    if hits == want {
        s
    } else {
        format!("{s} but accessors say {hits:?}")
    }
}

fn one(r: &Reference) -> Value {
    let cs = c(r);
    let j = serde_json::to_value(r).unwrap();
    // the parts as the serialized form shows them
    let part = |k: &str, l: usize| -> String {
        match j.get(k) {
            None => "".into(),
            Some(v) => match l {
                0 => format!("{}.{}", v["year"], v["number"]),
                1 => serde_json::from_value::<RefPartArticle>(v.clone()).unwrap().compact_string().to_string(),
                2 => serde_json::from_value::<RefPartParagraph>(v.clone()).unwrap().compact_string().to_string(),
                3 => serde_json::from_value::<RefPartPoint>(v.clone()).unwrap().compact_string().to_string(),
                _ => serde_json::from_value::<RefPartSubpoint>(v.clone()).unwrap().compact_string().to_string(),
            },
        }
    };
    let fields = [part("act", 0), part("article", 1), part("paragraph", 2), part("point", 3), part("subpoint", 4)];
    let back_c = Reference::from_compact_string(&cs).ok().as_ref() == Some(r);
    let back_j = serde_json::from_str::<Reference>(&serde_json::to_string(r).unwrap()).ok().as_ref() == Some(r);
    let back_y = serde_yaml::from_str::<Reference>(&serde_yaml::to_string(r).unwrap()).ok().as_ref() == Some(r);
    json!({"c": cs, "d": r.to_string(), "valid": valid(&fields), "last": last_view(r), "actonly": r.is_act_only(),
           "act": r.act().compact_string().to_string(), "art": r.article().compact_string().to_string(),
           "fields": fields, "back": [back_c, back_j, back_y],
           "parent": c(&r.parent()), "noact": c(&r.without_act()), "first": c(&r.first_in_range()), "lastin": c(&r.last_in_range())})
}

/// Rebuilding the reference from its parts through the checked route succeeds
fn valid(fields: &[String; 5]) -> bool {
    let v = json!(fields);
    via_serde(&v, false).is_some()
}

fn prog(p: &[Value]) -> Value {
    let mut b = ReferenceBuilder::new();
    let mut r = Reference::default();
    let mut s = Reference::default();
    let mut out = vec![];
    for i in p {
        let x: Option<Reference>;
        match gs(i, "o") {
            "set" => {
                let v = gs(i, "v");
                match gs(i, "l") {
                    "act" => b.set_part(pc::<ActIdentifier>(v)),
                    "art" => b.set_part(pc::<RefPartArticle>(v)),
                    "para" => b.set_part(pc::<RefPartParagraph>(v)),
                    "pt" => b.set_part(pc::<RefPartPoint>(v)),
                    "sub" => b.set_part(pc::<RefPartSubpoint>(v)),
                    _ => panic!("HARNESS: level"),
                };
                out.push("-".into());
                continue;
            }
            "reset" => {
                match gs(i, "l") {
                    "art" => b.reset_article(),
                    "para" => b.reset_paragraph(),
                    "pt" => b.reset_point(),
                    "sub" => b.reset_subpoint(),
                    _ => panic!("HARNESS: level"),
                };
                out.push("-".into());
                continue;
            }
            "build" => x = b.build().ok(),
            "compact" => x = Reference::from_compact_string(gs(i, "v")).ok(),
            "serde" => {
                x = via_serde(&i["v"], false);
                if x != via_serde(&i["v"], true) {
                    out.push("json and yaml disagree".into());
                    continue;
                }
            }
            "save" => {
                s = r.clone();
                out.push("-".into());
                continue;
            }
            "swap" => {
                std::mem::swap(&mut r, &mut s);
                out.push(c(&r));
                continue;
            }
            "parent" => x = Some(r.parent()),
            "noact" => x = Some(r.without_act()),
            "first" => x = Some(r.first_in_range()),
            "last" => x = Some(r.last_in_range()),
            "rel" => x = r.relative_to(&s).ok(),
            "range" => x = Reference::make_range(&r, &s).ok(),
            "act" => x = Some(pc::<ActIdentifier>(gs(i, "v")).into()),
            "art" => x = Some(pc::<RefPartArticle>(gs(i, "v")).into()),
            "actart" => x = Some((pc::<ActIdentifier>(gs(i, "v")), pc::<RefPartArticle>(gs(i, "w"))).into()),
            _ => panic!("HARNESS: instruction"),
        }
        match x {
            Some(x) => {
                out.push(c(&x));
                r = x;
            }
            None => out.push("ERR".into()),
        }
    }
    ok(json!({"out": out, "fin": one(&r), "built": res(b.build())}))
}

pub fn eval(i: &Value) -> Value {
    match gs(i, "op") {
        "prog" => prog(i["prog"].as_array().unwrap()),
        "one" => match Reference::from_compact_string(gs(i, "s")) {
            Ok(r) => ok(one(&r)),
            Err(_) => err(),
        },
        "serde" => match (via_serde(&i["v"], false), via_serde(&i["v"], true)) {
            (None, None) => err(),
            (Some(a), Some(b)) if a == b => ok(one(&a)),
            _ => ok(json!("json and yaml disagree")),
        },
        "row" => {
            let a: Reference = pc(gs(i, "a"));
            ok(i["bs"]
                .as_array()
                .unwrap()
                .iter()
                .map(|b| {
                    let b: Reference = pc(b.as_str().unwrap());
                    let cmp = a.cmp(&b) as i32;
                    let cmp = if (a < b) == (cmp < 0) && (a > b) == (cmp > 0) { cmp } else { 99 };
                    json!({"o": [cmp, (a == b) as i32, a.is_parent_of(&b) as i32, a.contains(&b) as i32],
                           "rel": res(a.relative_to(&b)), "rng": res(Reference::make_range(&a, &b))})
                })
                .collect())
        }
        _ => bad("op"),
    }
}
