use std::fmt::Display;
use std::str::FromStr;

use chrono::{Datelike, NaiveDate};
use hun_law::identifier::range::{IdentifierRange, IdentifierRangeFrom};
use hun_law::identifier::*;
use hun_law::mk_downloader::MkIssue;
use hun_law::util::compact_string::CompactString;
use hun_law::util::hun_str::{text_to_month_hun, FromHungarianString, ToHungarianString};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

use crate::{bad, err, gs, ok};

fn res_str(r: anyhow::Result<String>) -> Value {
    match r {
        Ok(s) => ok(json!(s)),
        Err(_) => err(),
    }
}

fn flat_json(v: Value) -> Value {
    match v {
        Value::Null => json!(""),
        Value::Object(o) if o.contains_key("year") => json!(format!("{}.{}", o["year"], o["number"])),
        x => x,
    }
}

trait Id: Clone + PartialEq + Display + CompactString + Serialize + DeserializeOwned + FromStr + Ord {}
impl<T: Clone + PartialEq + Display + CompactString + Serialize + DeserializeOwned + FromStr + Ord> Id for T {}

fn base<T: Id>(v: &T) -> Value {
    let d = v.to_string();
    let c = v.compact_string().to_string();
    let j = serde_json::to_value(v).unwrap();
    let js = serde_json::to_string(v).unwrap();
    let ys = serde_yaml::to_string(v).unwrap();
    let back_d = d.parse::<T>().ok().as_ref() == Some(v);
    let back_c = T::from_compact_string(&c).ok().as_ref() == Some(v);
    let back_j = serde_json::from_str::<T>(&js).ok().as_ref() == Some(v);
    let back_y = serde_yaml::from_str::<T>(&ys).ok().as_ref() == Some(v);
    json!({"d": d, "c": c, "j": flat_json(j), "first": false, "empty": false, "up": "", "rom": err(), "hun": err(),
           "back": {"disp": back_d, "compact": back_c, "json": back_j, "yaml": back_y}})
}

fn view<T: Id, E>(p: Result<T, E>, extra: impl Fn(&T, &mut Value)) -> Value {
    match p {
        Ok(v) => {
            let mut o = base(&v);
            extra(&v, &mut o);
            ok(o)
        }
        Err(_) => err(),
    }
}

fn common<T: IdentifierCommon>(v: &T, o: &mut Value) {
    o["first"] = json!(v.is_first());
    o["empty"] = json!(v.is_empty());
}

fn one(t: &str, s: &str, compact: bool) -> Value {
    fn p<T: Id>(s: &str, compact: bool) -> Result<T, ()> {
        if compact {
            T::from_compact_string(s).map_err(|_| ())
        } else {
            s.parse().map_err(|_| ())
        }
    }
    match t {
        "letter" => view(p::<AlphabeticIdentifier>(s, compact), |v, o| {
            common(v, o);
            o["up"] = json!(v.to_uppercase().to_string());
        }),
        "num" => view(p::<NumericIdentifier>(s, compact), |v, o| {
            common(v, o);
            o["up"] = json!(v.with_slash().to_string());
            o["rom"] = res_str(v.to_roman());
            o["hun"] = res_str(v.to_hungarian());
        }),
        "art" => view(p::<ArticleIdentifier>(s, compact), |v, o| common(v, o)),
        "para" => view(p::<ParagraphIdentifier>(s, compact), |v, o| common(v, o)),
        "pre" => view(p::<PrefixedAlphabeticIdentifier>(s, compact), |v, o| common(v, o)),
        "act" => view(p::<ActIdentifier>(s, compact), |_, _| ()),
        _ => bad("type"),
    }
}

fn cmp_of<T: Ord>(a: &T, b: &T) -> i32 {
    let c = a.cmp(b) as i32;
    // every way of asking must agree
    let consistent = (a < b) == (c < 0)
        && (a > b) == (c > 0)
        && (a <= b) == (c <= 0)
        && (a >= b) == (c >= 0)
        && a.partial_cmp(b) == Some(a.cmp(b));
    if consistent {
        c
    } else {
        99
    }
}

fn ps<T: FromStr>(s: &str) -> T {
    s.parse().unwrap_or_else(|_| panic!("REFUSED: cannot parse {s}"))
}

fn row<T: IdentifierCommon + FromStr>(a: &str, bs: &[Value]) -> Value {
    let a: T = ps(a);
    ok(bs
        .iter()
        .map(|b| {
            let b: T = ps(b.as_str().unwrap());
            json!([cmp_of(&a, &b), (a == b) as i32, a.is_next_from(b) as i32, b.is_first() as i32])
        })
        .collect())
}

fn range_view<T: IdentifierCommon + Display + Serialize + DeserializeOwned>(r: IdentifierRange<T>) -> Value {
    let c = r.compact_string().to_string();
    let back = IdentifierRange::<T>::from_compact_string(&c).ok() == Some(r);
    let j = serde_json::to_string(&r).unwrap();
    let y = serde_yaml::to_string(&r).unwrap();
    let jback = serde_json::from_str::<IdentifierRange<T>>(&j).ok() == Some(r)
        && serde_yaml::from_str::<IdentifierRange<T>>(&y).ok() == Some(r);
    json!({"isr": r.is_range(), "first": r.first_in_range().to_string(), "last": r.last_in_range().to_string(),
           "c": c, "back": back, "jback": jback})
}

fn range<T: IdentifierCommon + FromStr + Display + Serialize + DeserializeOwned>(i: &Value) -> Value {
    let (a, b): (T, T) = (ps(gs(i, "a")), ps(gs(i, "b")));
    let r = if a == b { IdentifierRange::from_single(a) } else { IdentifierRange::from_range(a, b) };
    let has: Vec<bool> = i["xs"].as_array().unwrap().iter().map(|x| r.contains(ps(x.as_str().unwrap()))).collect();
    ok(json!({"view": range_view(r), "has": has}))
}

fn rangec<T: IdentifierCommon + FromStr + Display + Serialize + DeserializeOwned>(i: &Value) -> Value {
    match IdentifierRange::<T>::from_compact_string(gs(i, "s")) {
        Ok(r) => ok(range_view(r)),
        Err(_) => err(),
    }
}

macro_rules! by_type {
    ($t:expr, $f:ident, $($a:expr),*) => {
        match $t {
            "letter" => $f::<AlphabeticIdentifier>($($a),*),
            "num" => $f::<NumericIdentifier>($($a),*),
            "art" => $f::<ArticleIdentifier>($($a),*),
            "para" => $f::<ParagraphIdentifier>($($a),*),
            "pre" => $f::<PrefixedAlphabeticIdentifier>($($a),*),
            _ => bad("type"),
        }
    };
}

pub fn eval(i: &Value) -> Value {
    match gs(i, "op") {
        "one" => one(gs(i, "t"), gs(i, "s"), false),
        "compact" => one(gs(i, "t"), gs(i, "s"), true),
        "all" => {
            let s = gs(i, "s");
            let types = ["letter", "num", "art", "para", "pre", "act"];
            let sub = |op: &str| eval(&json!({"op": op, "s": s}));
            ok(json!({"one": types.map(|t| one(t, s, false)), "compact": types.map(|t| one(t, s, true)),
                      "roman": sub("roman"), "issue": sub("issue")}))
        }
        "row" if gs(i, "t") == "act" => {
            let a: ActIdentifier = ps(gs(i, "a"));
            ok(i["bs"]
                .as_array()
                .unwrap()
                .iter()
                .map(|b| {
                    let b: ActIdentifier = ps(b.as_str().unwrap());
                    json!([cmp_of(&a, &b), (a == b) as i32, 0, 0])
                })
                .collect())
        }
        "row" => by_type!(gs(i, "t"), row, gs(i, "a"), i["bs"].as_array().unwrap()),
        "range" => by_type!(gs(i, "t"), range, i),
        "rangec" => by_type!(gs(i, "t"), rangec, i),
        "roman" => match NumericIdentifier::from_roman(gs(i, "s")) {
            Ok(v) => ok(json!([v.to_string(), res_str(v.to_roman())])),
            Err(_) => err(),
        },
        "hun" => {
            let s = gs(i, "s");
            match (u8::from_hungarian(s), u16::from_hungarian(s)) {
                (Ok(a), Ok(b)) if a as u16 == b => ok(json!(a)),
                (Err(_), Err(_)) => err(),
                _ => ok(json!("u8 and u16 disagree")),
            }
        }
        "tohun" => {
            let n = i["n"].as_u64().unwrap();
            let w = (n as u16).to_hungarian().map(|s| s.to_string());
            if n < 256 {
                let b = (n as u8).to_hungarian().map(|s| s.to_string());
                if b.is_ok() != w.is_ok() || (b.is_ok() && b.as_ref().unwrap() != w.as_ref().unwrap()) {
                    return ok(json!("u8 and u16 disagree"));
                }
            }
            res_str(w)
        }
        "date" => match NaiveDate::from_hungarian(gs(i, "s")) {
            Ok(d) => ok(json!([d.year(), d.month(), d.day()])),
            Err(_) => err(),
        },
        "month" => match text_to_month_hun(gs(i, "s")) {
            Ok(d) => ok(json!(d)),
            Err(_) => err(),
        },
        "issue" => match gs(i, "s").parse::<MkIssue>() {
            Ok(m) => ok(json!([m.year, m.issue])),
            Err(_) => err(),
        },
        _ => bad("op"),
    }
}
