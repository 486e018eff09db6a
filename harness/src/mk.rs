use chrono::Datelike;
use hun_law::parser::mk_act_section::parse_mk_pages_into_acts;
use hun_law::parser::pdf::PageOfLines;
use serde_json::{json, Value};

use crate::structure::{line_view, lines};
use crate::{err, ok};

pub fn eval(i: &Value) -> Value {
    let pages: Vec<PageOfLines> =
        i["ps"].as_array().unwrap().iter().map(|p| PageOfLines { lines: lines(p) }).collect();
    match parse_mk_pages_into_acts(&pages) {
        Ok(acts) => ok(json!(acts
            .iter()
            .map(|a| json!({
                "id": [a.identifier.year as i64, a.identifier.number as i64],
                "subject": a.subject,
                "date": [a.publication_date.year(), a.publication_date.month(), a.publication_date.day()],
                "body": a.body.iter().map(line_view).collect::<Vec<_>>(),
            }))
            .collect::<Vec<_>>())),
        Err(_) => err(),
    }
}
