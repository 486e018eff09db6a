use hun_law::parser::pdf::{parse_pdf, CropBox};
use hun_law::util::indentedline::IndentedLine;
use serde_json::{json, Value};

use crate::{err, ok};

const UNIT: f64 = 160.0;

fn pos(x: f64) -> Value {
    let y = x * UNIT;
    if (y - y.round()).abs() < 1e-3 {
        json!(y.round() as i64)
    } else {
        json!(y)
    }
}

/// [text, position and bold flag of each character, justified]
fn view(l: &IndentedLine) -> Value {
    let n = l.content().chars().count() as i64;
    json!({
        "t": l.content(),
        "at": (0..n).map(|i| pos(l.indent_at(i))).collect::<Vec<_>>(),
        "b": (0..n).map(|i| l.slice(i, Some(i + 1)).is_bold() as i32).collect::<Vec<_>>(),
        "j": l.is_justified() as i32,
    })
}

pub fn eval(i: &Value) -> Value {
    let bytes = crate::pdfw::write(i);
    if let Ok(p) = std::env::var("HLH_DUMP_PDF") {
        std::fs::write(p, &bytes).unwrap();
    }
    let c = |k: usize| i["crop"][k].as_i64().unwrap() as f32 / 8.0;
    // the two boxes the program itself knows are used as it has them
    let crop = match i["crop"].to_string().as_str() {
        "[0,0,8000,8000]" => CropBox::default(),
        "[0,0,8000,6016]" => hun_law::mk_downloader::DEFAULT_MK_CROP,
        _ => CropBox { left: c(0), bottom: c(1), right: c(2), top: c(3) },
    };
    match parse_pdf(&bytes, crop) {
        Ok(pages) => ok(json!(pages.iter().map(|p| p.lines.iter().map(view).collect::<Vec<_>>()).collect::<Vec<_>>())),
        Err(e) => {
            if std::env::var("HLH_WHY").is_ok() {
                eprintln!("{e:?}");
            }
            err()
        }
    }
}
