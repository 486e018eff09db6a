use hun_law::util::indentedline::{IndentedLine, IndentedLinePart, EMPTY_LINE};
use hun_law::util::QuoteCheck;
use serde_json::{json, Value};

use crate::{bad, gs, ok};

/// positions are integers in the specification; the real ones are a sixteenth of them (exact in f64)
pub const SCALE: f64 = 16.0;

pub fn line_of(p: &Value, j: bool) -> IndentedLine {
    IndentedLine::from_parts(
        p.as_array()
            .unwrap()
            .iter()
            .map(|x| IndentedLinePart {
                dx: x[0].as_i64().unwrap() as f64 / SCALE,
                content: x[1].as_str().unwrap().chars().next().unwrap(),
                bold: x[2].as_i64().unwrap() == 1,
            })
            .collect(),
        j,
    )
}

fn num(x: f64) -> Value {
    let y = x * SCALE;
    if y.fract() == 0.0 {
        json!(y as i64)
    } else {
        json!(y)
    }
}

fn view(l: &IndentedLine) -> Value {
    let at: Vec<Value> = (-2..=(l.len() as i64 + 1)).map(|i| num(l.indent_at(i))).collect();
    json!({"c": l.content(), "ind": num(l.indent()), "bold": l.is_bold(), "just": l.is_justified(), "len": l.len(), "empty": l.is_empty(), "at": at})
}

fn to_of(v: &Value) -> Option<i64> {
    v.as_array().unwrap().first().map(|x| x.as_i64().unwrap())
}

pub fn plain(s: &str) -> IndentedLine {
    IndentedLine::from_parts(
        s.chars().map(|c| IndentedLinePart { dx: 5.0, content: c, bold: false }).collect(),
        false,
    )
}

pub fn eval(i: &Value) -> Value {
    match gs(i, "op") {
        "lprog" => {
            let mut regs: Vec<IndentedLine> = vec![];
            for s in i["prog"].as_array().unwrap() {
                let r = |k: &str| &regs[s[k].as_u64().unwrap() as usize - 1];
                let l = match gs(s, "o") {
                    "line" => line_of(&s["p"], s["j"].as_bool().unwrap()),
                    "text" => IndentedLine::from_test_str(gs(s, "s")),
                    "slice" => r("r").slice(s["from"].as_i64().unwrap(), to_of(&s["to"])),
                    "bytes" => {
                        let l = r("r");
                        let at = |n: usize| l.content().char_indices().nth(n).map_or(l.content().len(), |(b, _)| b);
                        l.slice_bytes(at(s["from"].as_u64().unwrap() as usize), to_of(&s["to"]).map(|n| at(n as usize)))
                    }
                    "multi" => {
                        let ls: Vec<&IndentedLine> =
                            s["rs"].as_array().unwrap().iter().map(|k| &regs[k.as_u64().unwrap() as usize - 1]).collect();
                        IndentedLine::from_multiple(&ls)
                    }
                    "bold" => r("r").as_bold(),
                    "empty" => EMPTY_LINE,
                    _ => return bad("instruction"),
                };
                regs.push(l);
            }
            ok(json!(regs
                .iter()
                .enumerate()
                .map(|(q, l)| json!({
                    "w": view(l),
                    "eq": regs[..=q].iter().map(|z| (l == z) as i32).collect::<Vec<_>>(),
                    "leq": regs[..=q].iter().map(|z| l.indent_less_or_eq(z.indent()) as i32).collect::<Vec<_>>()
                }))
                .collect::<Vec<_>>()))
        }
        "join" => {
            let ls: Vec<IndentedLine> = i["ts"].as_array().unwrap().iter().map(|s| plain(s.as_str().unwrap())).collect();
            let mut s = String::new();
            let mut out = vec![];
            for (n, l) in ls.iter().enumerate() {
                l.append_to(&mut s);
                let j = IndentedLine::join(&ls[..=n]);
                out.push(if j == s { s.clone() } else { format!("append_to {s:?} but join {j:?}") });
            }
            ok(json!(out))
        }
        "quote" => {
            let mut q = QuoteCheck::default();
            let mut steps = vec![];
            let mut fine = true;
            for t in i["ts"].as_array().unwrap() {
                let r = q.update(&plain(t.as_str().unwrap())).is_ok();
                steps.push(json!({"ok": r, "b": q.beginning_is_quoted, "e": q.end_is_quoted, "lvl": q.quote_level}));
                if !r {
                    fine = false;
                    break;
                }
            }
            ok(json!({"steps": steps, "end": fine && q.check_end().is_ok()}))
        }
        _ => bad("op"),
    }
}
