use hun_law::identifier::IdentifierCommon;
use hun_law::parser::mk_act_section::ActRawText;
use hun_law::parser::structure::parse_act_structure;
use hun_law::structure::*;
use hun_law::util::indentedline::{IndentedLine, IndentedLinePart, EMPTY_LINE};
use serde_json::{json, Value};

use crate::{err, gs, ok};

pub const SCALE: f64 = 4.0;
pub const CHARW: f64 = 5.0;

/// [text, indentation, bold, justified]
pub fn line(v: &Value) -> IndentedLine {
    let t = v[0].as_str().unwrap();
    if t.is_empty() {
        return EMPTY_LINE;
    }
    let x = v[1].as_i64().unwrap() as f64 / SCALE;
    let bold = v[2].as_i64().unwrap() == 1;
    IndentedLine::from_parts(
        t.chars()
            .enumerate()
            .map(|(n, content)| IndentedLinePart { dx: if n == 0 { x } else { CHARW }, content, bold })
            .collect(),
        v[3].as_i64().unwrap() == 1,
    )
}
pub fn lines(v: &Value) -> Vec<IndentedLine> {
    v.as_array().unwrap().iter().map(line).collect()
}
pub fn num(x: f64) -> Value {
    let y = x * SCALE;
    if y.fract() == 0.0 {
        json!(y as i64)
    } else {
        json!(y)
    }
}
pub fn line_view(l: &IndentedLine) -> Value {
    json!([l.content(), num(l.indent()), l.is_bold() as i32, l.is_justified() as i32])
}
fn opt(s: &Option<String>) -> Value {
    match s {
        Some(s) => json!([s]),
        None => json!([]),
    }
}

pub fn qb_view(q: &QuotedBlock) -> Value {
    json!({"in": opt(&q.intro), "wu": opt(&q.wrap_up), "ls": q.lines.iter().map(line_view).collect::<Vec<_>>()})
}

pub trait Kids: ChildrenCommon {
    fn kids(&self) -> (&'static str, Value);
}
fn list<I, C>(v: &[SubArticleElement<I, C>]) -> Value
where
    I: IdentifierCommon + std::fmt::Display,
    C: Kids,
{
    json!(v.iter().map(sae_view).collect::<Vec<_>>())
}
impl Kids for ParagraphChildren {
    fn kids(&self) -> (&'static str, Value) {
        match self {
            ParagraphChildren::AlphabeticPoint(x) => ("ap", list(x)),
            ParagraphChildren::NumericPoint(x) => ("np", list(x)),
            ParagraphChildren::QuotedBlock(x) => ("qb", json!(x.iter().map(qb_view).collect::<Vec<_>>())),
            ParagraphChildren::BlockAmendment(x) => {
                let (k, v) = match &x.children {
                    BlockAmendmentChildren::Paragraph(x) => ("para", list(x)),
                    BlockAmendmentChildren::AlphabeticPoint(x) => ("ap", list(x)),
                    BlockAmendmentChildren::NumericPoint(x) => ("np", list(x)),
                    BlockAmendmentChildren::AlphabeticSubpoint(x) => ("asp", list(x)),
                    BlockAmendmentChildren::NumericSubpoint(x) => ("nsp", list(x)),
                };
                ("ba", json!({"in": opt(&x.intro), "wu": opt(&x.wrap_up), "ct": k, "ch": v}))
            }
            ParagraphChildren::StructuralBlockAmendment(x) => {
                ("sba", json!({"in": opt(&x.intro), "wu": opt(&x.wrap_up), "ch": children_view(&x.children)}))
            }
        }
    }
}
impl Kids for AlphabeticPointChildren {
    fn kids(&self) -> (&'static str, Value) {
        match self {
            AlphabeticPointChildren::AlphabeticSubpoint(x) => ("asp", list(x)),
            AlphabeticPointChildren::NumericSubpoint(x) => ("nsp", list(x)),
        }
    }
}
impl Kids for NumericPointChildren {
    fn kids(&self) -> (&'static str, Value) {
        match self {
            NumericPointChildren::AlphabeticSubpoint(x) => ("asp", list(x)),
        }
    }
}
impl Kids for AlphabeticSubpointChildren {
    fn kids(&self) -> (&'static str, Value) {
        match *self {}
    }
}
impl Kids for NumericSubpointChildren {
    fn kids(&self) -> (&'static str, Value) {
        match *self {}
    }
}

pub fn sae_view<I, C>(e: &SubArticleElement<I, C>) -> Value
where
    I: IdentifierCommon + std::fmt::Display,
    C: Kids,
{
    let id = e.identifier.to_string();
    match &e.body {
        SAEBody::Text(t) => json!({"id": id, "x": t}),
        SAEBody::Children { intro, children, wrap_up } => {
            let (ct, ch) = children.kids();
            json!({"id": id, "in": intro, "ct": ct, "ch": ch, "wu": opt(wrap_up)})
        }
    }
}

pub fn child_view(c: &ActChild) -> Value {
    match c {
        ActChild::StructuralElement(e) => {
            let t = match e.element_type {
                StructuralElementType::Book => "book",
                StructuralElementType::Part { is_special: false } => "part",
                StructuralElementType::Part { is_special: true } => "spart",
                StructuralElementType::Title => "title",
                StructuralElementType::Chapter => "chapter",
            };
            json!({"k": "se", "t": t, "id": e.identifier.to_string(), "title": e.title})
        }
        ActChild::Subtitle(e) => {
            json!({"k": "sub", "id": e.identifier.map_or(String::new(), |i| i.to_string()), "title": e.title})
        }
        ActChild::Article(a) => {
            json!({"k": "art", "id": a.identifier.to_string(), "title": opt(&a.title), "ch": list(&a.children)})
        }
    }
}
pub fn children_view(v: &[ActChild]) -> Value {
    json!(v.iter().map(child_view).collect::<Vec<_>>())
}

pub fn eval(i: &Value) -> Value {
    let _ = gs;
    let raw = ActRawText { body: lines(&i["ls"]), subject: "tárgy".into(), ..Default::default() };
    match parse_act_structure(&raw) {
        Ok(act) => {
            let clean = act.identifier == raw.identifier
                && act.subject == raw.subject
                && act.publication_date == raw.publication_date
                && act.contained_abbreviations.is_empty();
            if !clean {
                return ok(json!("front matter changed"));
            }
            ok(json!({"pre": act.preamble, "ch": children_view(&act.children)}))
        }
        Err(_) => err(),
    }
}
