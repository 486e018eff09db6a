use hun_law::fixups::{Fixup, Fixups};
use hun_law::identifier::ActIdentifier;
use hun_law::util::indentedline::{IndentedLine, IndentedLinePart};
use serde_json::{json, Value};

use crate::{bad, err, ok};

const UNIT: f64 = 20160.0;

pub fn line(v: &Value) -> IndentedLine {
    IndentedLine::from_parts(
        v["p"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| IndentedLinePart {
                dx: x[0].as_i64().unwrap() as f64 / 4.0,
                content: x[1].as_str().unwrap().chars().next().unwrap(),
                bold: x[2].as_i64().unwrap() == 1,
            })
            .collect(),
        v["j"].as_bool().unwrap(),
    )
}

fn pos(x: f64) -> Value {
    let y = x * UNIT;
    if (y - y.round()).abs() < 1e-3 {
        json!(y.round() as i64)
    } else {
        json!(y)
    }
}

fn view(l: &IndentedLine) -> Value {
    let n = l.content().chars().count() as i64;
    json!({
        "t": l.content(),
        "at": (0..n).map(|i| pos(l.indent_at(i))).collect::<Vec<_>>(),
        "b": (0..n).map(|i| l.slice(i, Some(i + 1)).is_bold() as i32).collect::<Vec<_>>(),
        "j": l.is_justified(),
    })
}

pub fn fix(v: &Value) -> Fixup {
    Fixup {
        after: v["after"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
        old: v["old"].as_str().unwrap().to_string(),
        new: v["new"].as_str().unwrap().to_string(),
        set_bold: v["bold"].as_bool().unwrap(),
    }
}

fn outcome(r: anyhow::Result<()>, ls: &[IndentedLine]) -> Value {
    match r {
        Ok(()) => ok(json!(ls.iter().map(view).collect::<Vec<_>>())),
        Err(_) => err(),
    }
}

/// corrections applied one by one, and as a saved and loaded list: both must do the same
pub fn eval(i: &Value) -> Value {
    let mut one: Vec<IndentedLine> = i["ls"].as_array().unwrap().iter().map(line).collect();
    let mut all = one.clone();
    let fs: Vec<Fixup> = i["fs"].as_array().unwrap().iter().map(fix).collect();
    let a = outcome(fs.iter().try_for_each(|f| f.apply(&mut one)), &one);
    if i.get("stored").is_some() {
        let dir = tempfile::tempdir().expect("HARNESS: tempdir");
        let id = ActIdentifier { year: 2011, number: 80 };
        let r = (|| -> anyhow::Result<Vec<Fixup>> {
            for f in &fs {
                // as a session does: load what is there, add, save
                let mut s = Fixups::load_from(id, dir.path().to_owned())?;
                s.add(f.clone());
                s.save()?;
            }
            let s = Fixups::load_from(id, dir.path().to_owned())?;
            let other = Fixups::load_from(ActIdentifier { year: 2011, number: 81 }, dir.path().to_owned())?;
            anyhow::ensure!(Vec::<Fixup>::from(other).is_empty(), "store of another act");
            Ok(s.into())
        })();
        match r {
            Ok(back) if back == fs => (),
            Ok(back) => return json!({"r": "store", "v": format!("{back:?}")}),
            Err(e) => return json!({"r": "store", "v": format!("{e:?}")}),
        }
        let r = Fixups::load_from(id, dir.path().to_owned()).and_then(|s| s.apply(&mut all));
        let b = outcome(r, &all);
        if a != b {
            return json!({"r": "differ", "one": a, "all": b});
        }
    }
    let _ = bad;
    a
}
