//! Acts built from a neutral description, walked, edited, written in every format and read back.
use std::collections::BTreeMap;
use std::str::FromStr;

use anyhow::anyhow;
use chrono::NaiveDate;
use hun_law::identifier::range::{IdentifierRange, IdentifierRangeFrom};
use hun_law::identifier::*;
use hun_law::output::{quick_display_indented_line, CliOutput, OutputFormat};
use hun_law::parser::mk_act_section::ActRawText;
use hun_law::parser::pdf::PageOfLines;
use hun_law::reference::structural::*;
use hun_law::reference::Reference;
use hun_law::semantic_info::{self as si, SemanticInfo, SpecialPhrase};
use hun_law::structure::*;
use hun_law::util::compact_string::CompactString;
use hun_law::util::singleton_yaml;
use hun_law::util::walker::{SAEVisitor, SAEVisitorMut};
use serde_json::{json, Value};

use crate::structure::{child_view, children_view, line, lines};
use crate::{err, gs, ok};

// ------------------------------------------------------------------------------------------------- building

fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("HARNESS: not a list: {v}"))
}
fn st(v: &Value) -> String {
    v.as_str().unwrap_or_else(|| panic!("HARNESS: not a string: {v}")).to_string()
}
fn opt<T>(v: &Value, f: impl Fn(&Value) -> T) -> Option<T> {
    arr(v).first().map(f)
}
fn p<T: FromStr>(v: &Value) -> T {
    let s = st(v);
    s.parse().unwrap_or_else(|_| panic!("REFUSED: {s}"))
}
fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("HARNESS: not a number: {v}"))
}
fn flag(v: &Value) -> bool {
    v.as_bool().unwrap_or_else(|| panic!("HARNESS: not a flag: {v}"))
}
fn act_id(y: &Value, n: &Value) -> ActIdentifier {
    ActIdentifier { year: int(y) as i16, number: int(n) as i32 }
}
fn day(v: &Value) -> NaiveDate {
    NaiveDate::parse_from_str(&st(v), "%Y-%m-%d").unwrap_or_else(|_| panic!("HARNESS: date {v}"))
}
fn range<T: IdentifierCommon + FromStr>(v: &Value) -> IdentifierRange<T> {
    let a = arr(v);
    IdentifierRange::<T>::from_range(p(&a[0]), p(a.last().unwrap()))
}
/// references are given in the compact notation, which other checks decide
fn reference(v: &Value) -> Reference {
    let part = |k: &str| arr(&v[k]).iter().map(|x| st(x).replace(':', ".").replace('/', "")).collect::<Vec<_>>().join("-");
    let act = opt(&v["act"], |a| format!("{}.{}", a[0], a[1])).unwrap_or_default();
    let s = format!("{act}_{}_{}_{}_{}", part("art").to_lowercase(), part("par"), part("pt"), part("sp"));
    Reference::from_compact_string(&s).unwrap_or_else(|_| panic!("REFUSED: reference {s}"))
}
fn structural(v: &Value) -> StructuralReference {
    let e = &v["el"];
    let x = &e["v"];
    StructuralReference {
        act: opt(&v["act"], |a| act_id(&a[0], &a[1])),
        book: opt(&v["book"], p),
        parent: opt(&v["parent"], |q| match gs(q, "k") {
            "Part" => StructuralReferenceParent::Part(p(&q["v"][0])),
            "Title" => StructuralReferenceParent::Title(p(&q["v"][0])),
            "Chapter" => StructuralReferenceParent::Chapter(p(&q["v"][0])),
            "SubtitleId" => StructuralReferenceParent::SubtitleId(p(&q["v"][0])),
            "SubtitleRange" => StructuralReferenceParent::SubtitleRange(range(&q["v"])),
            "SubtitleTitle" => StructuralReferenceParent::SubtitleTitle(st(&q["v"][0])),
            k => panic!("HARNESS: {k}"),
        }),
        structural_element: match gs(e, "k") {
            "Part" => StructuralReferenceElement::Part(p(&x[0])),
            "Title" => StructuralReferenceElement::Title(p(&x[0])),
            "Chapter" => StructuralReferenceElement::Chapter(p(&x[0])),
            "SubtitleId" => StructuralReferenceElement::SubtitleId(p(&x[0])),
            "SubtitleRange" => StructuralReferenceElement::SubtitleRange(range(x)),
            "SubtitleTitle" => StructuralReferenceElement::SubtitleTitle(st(&x[0])),
            "SubtitleAfterArticle" => StructuralReferenceElement::SubtitleAfterArticle(p(&x[0])),
            "SubtitleBeforeArticle" => StructuralReferenceElement::SubtitleBeforeArticle(p(&x[0])),
            "SubtitleBeforeArticleInclusive" => StructuralReferenceElement::SubtitleBeforeArticleInclusive(p(&x[0])),
            "SubtitleUnknown" => StructuralReferenceElement::SubtitleUnknown,
            "Article" => StructuralReferenceElement::Article(range(x)),
            k => panic!("HARNESS: {k}"),
        },
        title_only: flag(&v["only"]),
    }
}
fn phrase(v: &Value) -> SpecialPhrase {
    match gs(v, "k") {
        "ba" => si::BlockAmendment { position: reference(&v["pos"]), pure_insertion: flag(&v["ins"]) }.into(),
        "sba" => si::StructuralBlockAmendment { position: structural(&v["pos"]), pure_insertion: flag(&v["ins"]) }.into(),
        "ed" => si::EnforcementDate {
            positions: arr(&v["positions"]).iter().map(reference).collect(),
            structural_positions: arr(&v["spos"]).iter().map(structural).collect(),
            is_default: flag(&v["def"]),
            date: match gs(&v["date"], "k") {
                "date" => si::EnforcementDateType::Date(day(&v["date"]["d"])),
                "days" => si::EnforcementDateType::DaysAfterPublication(int(&v["date"]["n"]) as u16),
                _ => si::EnforcementDateType::DayInMonthAfterPublication {
                    month: opt(&v["date"]["month"], |m| int(m) as u8),
                    day: int(&v["date"]["day"]) as u16,
                },
            },
            inline_repeal: opt(&v["rep"], day),
        }
        .into(),
        "rep" => SpecialPhrase::Repeal(
            arr(&v["l"])
                .iter()
                .map(|x| if x["k"] == "r" { si::RepealReference::Reference(reference(&x["r"])) } else { si::RepealReference::StructuralReference(structural(&x["s"])) })
                .collect(),
        ),
        "ta" => SpecialPhrase::TextAmendment(
            arr(&v["l"])
                .iter()
                .map(|x| si::TextAmendment {
                    reference: match gs(&x["ref"], "k") {
                        "sae" => si::TextAmendmentReference::SAE {
                            reference: reference(&x["ref"]["r"]),
                            amended_part: match gs(&x["ref"], "part") {
                                "All" => si::TextAmendmentSAEPart::All,
                                "IntroOnly" => si::TextAmendmentSAEPart::IntroOnly,
                                _ => si::TextAmendmentSAEPart::WrapUpOnly,
                            },
                        },
                        "st" => si::TextAmendmentReference::Structural(structural(&x["ref"]["s"])),
                        _ => si::TextAmendmentReference::ArticleTitle(reference(&x["ref"]["r"])),
                    },
                    from: st(&x["from"]),
                    to: st(&x["to"]),
                })
                .collect(),
        ),
        k => panic!("HARNESS: {k}"),
    }
}
fn abbreviations(v: &Value) -> BTreeMap<String, ActIdentifier> {
    arr(v).iter().map(|x| (st(&x[0]), act_id(&x[1], &x[2]))).collect()
}
fn bytes(t: &str, chars: &Value) -> usize {
    t.chars().take(int(chars) as usize).map(char::len_utf8).sum()
}
fn semantic(e: &Value) -> SemanticInfo {
    let v = match e.get("si") {
        None => return Default::default(),
        Some(v) => v,
    };
    let t = e.get("x").unwrap_or(&e["in"]).as_str().unwrap();
    SemanticInfo {
        outgoing_references: arr(&v["refs"])
            .iter()
            .map(|r| si::OutgoingReference { start: bytes(t, &r[0]), end: bytes(t, &r[1]), reference: reference(&r[2]) })
            .collect(),
        new_abbreviations: abbreviations(&v["abbr"]),
        special_phrase: opt(&v["sp"], phrase),
    }
}
fn change(e: &Value) -> Option<LastChange> {
    opt(e.get("lc")?, |c| LastChange {
        date: day(&c["date"]),
        cause: match gs(c, "k") {
            "amend" => ChangeCause::Amendment(reference(&c["r"])),
            "auto" => ChangeCause::AutoRepeal,
            _ => ChangeCause::Other(st(&c["s"])),
        },
    })
}
trait Make: ChildrenCommon {
    fn make(k: &str, v: &Value) -> Self;
}
fn list<I: IdentifierCommon + FromStr, C: Make>(v: &Value) -> Vec<SubArticleElement<I, C>> {
    arr(v).iter().map(sae).collect()
}
fn sae<I: IdentifierCommon + FromStr, C: Make>(v: &Value) -> SubArticleElement<I, C> {
    SubArticleElement {
        identifier: p(&v["id"]),
        body: match v.get("x") {
            Some(t) => SAEBody::Text(st(t)),
            None => SAEBody::Children { intro: st(&v["in"]), children: C::make(gs(v, "ct"), &v["ch"]), wrap_up: opt(&v["wu"], st) },
        },
        semantic_info: semantic(v),
        last_change: change(v),
    }
}
impl Make for ParagraphChildren {
    fn make(k: &str, v: &Value) -> Self {
        match k {
            "ap" => Self::AlphabeticPoint(list(v)),
            "np" => Self::NumericPoint(list(v)),
            "qb" => Self::QuotedBlock(
                arr(v).iter().map(|b| QuotedBlock { intro: opt(&b["in"], st), lines: lines(&b["ls"]), wrap_up: opt(&b["wu"], st) }).collect(),
            ),
            "ba" => Self::BlockAmendment(BlockAmendment {
                intro: opt(&v["in"], st),
                wrap_up: opt(&v["wu"], st),
                children: match gs(v, "ct") {
                    "para" => BlockAmendmentChildren::Paragraph(list(&v["ch"])),
                    "ap" => BlockAmendmentChildren::AlphabeticPoint(list(&v["ch"])),
                    "np" => BlockAmendmentChildren::NumericPoint(list(&v["ch"])),
                    "asp" => BlockAmendmentChildren::AlphabeticSubpoint(list(&v["ch"])),
                    _ => BlockAmendmentChildren::NumericSubpoint(list(&v["ch"])),
                },
            }),
            "sba" => Self::StructuralBlockAmendment(StructuralBlockAmendment {
                intro: opt(&v["in"], st),
                wrap_up: opt(&v["wu"], st),
                children: arr(&v["ch"]).iter().map(child).collect(),
            }),
            k => panic!("HARNESS: {k}"),
        }
    }
}
impl Make for AlphabeticPointChildren {
    fn make(k: &str, v: &Value) -> Self {
        match k {
            "asp" => Self::AlphabeticSubpoint(list(v)),
            "nsp" => Self::NumericSubpoint(list(v)),
            k => panic!("HARNESS: {k}"),
        }
    }
}
impl Make for NumericPointChildren {
    fn make(_: &str, v: &Value) -> Self {
        Self::AlphabeticSubpoint(list(v))
    }
}
impl Make for AlphabeticSubpointChildren {
    fn make(k: &str, _: &Value) -> Self {
        panic!("HARNESS: {k}")
    }
}
impl Make for NumericSubpointChildren {
    fn make(k: &str, _: &Value) -> Self {
        panic!("HARNESS: {k}")
    }
}
fn child(v: &Value) -> ActChild {
    match gs(v, "k") {
        "se" => StructuralElement {
            identifier: p(&v["id"]),
            title: st(&v["title"]),
            element_type: match gs(v, "t") {
                "book" => StructuralElementType::Book,
                "part" => StructuralElementType::Part { is_special: false },
                "spart" => StructuralElementType::Part { is_special: true },
                "title" => StructuralElementType::Title,
                _ => StructuralElementType::Chapter,
            },
            last_change: change(v),
        }
        .into(),
        "sub" => Subtitle { identifier: if v["id"] == "" { None } else { Some(p(&v["id"])) }, title: st(&v["title"]), last_change: change(v) }.into(),
        _ => Article { identifier: p(&v["id"]), title: opt(&v["title"], st), children: list(&v["ch"]), last_change: change(v) }.into(),
    }
}
fn act(v: &Value) -> Act {
    Act {
        identifier: act_id(&v["y"], &v["n"]),
        subject: st(&v["subject"]),
        preamble: st(&v["pre"]),
        publication_date: day(&v["date"]),
        contained_abbreviations: abbreviations(&v["abbr"]),
        children: arr(&v["ch"]).iter().map(child).collect(),
    }
}

// ------------------------------------------------------------------------------------------------- walking

#[derive(Default)]
struct Log {
    events: Vec<Value>,
    stop: usize,
    cuts: Vec<usize>,
}
impl Log {
    fn note<I: IdentifierCommon, C: ChildrenCommon>(&mut self, k: &str, at: &Reference, e: &SubArticleElement<I, C>) -> anyhow::Result<usize> {
        let x = match &e.body {
            SAEBody::Text(t) => t,
            SAEBody::Children { intro, .. } => intro,
        };
        self.events.push(json!({"k": k, "at": serde_json::to_value(at).unwrap(), "ty": C::parent_type_name(), "x": x, "empty": e.is_empty()}));
        if self.events.len() == self.stop {
            return Err(anyhow!("stop"));
        }
        Ok(self.events.len())
    }
}
impl SAEVisitor for Log {
    fn on_enter<I: IdentifierCommon, C: ChildrenCommon>(&mut self, at: &Reference, e: &SubArticleElement<I, C>) -> anyhow::Result<()> {
        self.note("in", at, e).map(|_| ())
    }
    fn on_exit<I: IdentifierCommon, C: ChildrenCommon>(&mut self, at: &Reference, e: &SubArticleElement<I, C>) -> anyhow::Result<()> {
        self.note("out", at, e).map(|_| ())
    }
}
impl SAEVisitorMut for Log {
    fn on_enter<I: IdentifierCommon, C: ChildrenCommon>(&mut self, at: &Reference, e: &mut SubArticleElement<I, C>) -> anyhow::Result<()> {
        let n = self.note("in", at, e)?;
        if self.cuts.contains(&n) {
            e.body = SAEBody::Text(format!("cut {n}"));
        }
        Ok(())
    }
    fn on_exit<I: IdentifierCommon, C: ChildrenCommon>(&mut self, at: &Reference, e: &mut SubArticleElement<I, C>) -> anyhow::Result<()> {
        self.note("out", at, e)?;
        match &mut e.body {
            SAEBody::Text(t) => t.push('+'),
            SAEBody::Children { intro, .. } => intro.push('+'),
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------------- formats

/// positions in quarters of a point, as in the input
fn quarters(v: Value) -> Value {
    match v {
        Value::Array(a) => a.into_iter().map(quarters).collect(),
        Value::Object(o) => o
            .into_iter()
            .map(|(k, v)| if k == "dx" { (k, crate::structure::num(v.as_f64().unwrap())) } else { (k, quarters(v)) })
            .collect::<serde_json::Map<_, _>>()
            .into(),
        v => v,
    }
}
fn format(f: &str) -> OutputFormat {
    match f {
        "plain" => OutputFormat::Plain,
        "test" => OutputFormat::TestPlain,
        "colored" => OutputFormat::Colored,
        "json" => OutputFormat::Json,
        _ => OutputFormat::Yaml,
    }
}
fn wire<T>(x: &T) -> Value
where
    T: Clone + PartialEq + serde::Serialize + serde::de::DeserializeOwned + CliOutput,
{
    let mut j = vec![];
    let mut y = vec![];
    if x.clone().cli_output(80, OutputFormat::Json, &mut j).is_err() || x.clone().cli_output(80, OutputFormat::Yaml, &mut y).is_err() {
        return err();
    }
    let jv: Value = serde_json::from_slice(&j).unwrap_or(json!("not json"));
    let yv: Value = serde_yaml::from_slice(&y).unwrap_or(json!("not yaml"));
    // read back, and written again
    let same = |r: Option<T>| r.map_or(false, |r| &r == x && serde_json::to_value(&r).ok().as_ref() == Some(&jv));
    let back = [
        ("json", same(serde_json::from_slice(&j).ok())),
        ("value", same(serde_json::from_value(jv.clone()).ok())),
        ("yaml", same(singleton_yaml::from_slice(&y).ok())),
        ("yamlr", same(singleton_yaml::from_reader(&y[..]).ok())),
        ("yamls", same(std::str::from_utf8(&y).ok().and_then(|s| singleton_yaml::from_str(s).ok()))),
    ];
    let lost: Vec<&str> = back.iter().filter(|b| !b.1).map(|b| b.0).collect();
    ok(json!({"lost": lost, "yamldiffers": jv != yv, "w": quarters(jv)}))
}

/// the lines of a text, or the value that was written
fn written(f: &str, o: Vec<u8>) -> Value {
    match f {
        "json" => quarters(serde_json::from_slice(&o).unwrap_or(json!("not json"))),
        "yaml" => quarters(serde_yaml::from_slice(&o).unwrap_or(json!("not yaml"))),
        _ => json!(String::from_utf8_lossy(&o).split('\n').collect::<Vec<_>>()),
    }
}

pub fn eval(i: &Value) -> Value {
    match gs(i, "op") {
        "walk" => {
            let a = act(&i["act"]);
            let mut l = Log { stop: int(&i["stop"]) as usize, ..Default::default() };
            let done = a.walk_saes(&mut l).is_ok();
            ok(json!({"done": done, "ev": l.events}))
        }
        "edit" => {
            let mut a = act(&i["act"]);
            let mut l = Log { stop: int(&i["stop"]) as usize, cuts: arr(&i["cuts"]).iter().map(|n| int(n) as usize).collect(), ..Default::default() };
            let done = a.walk_saes_mut(&mut l).is_ok();
            ok(json!({"done": done, "ev": l.events, "ch": children_view(&a.children)}))
        }
        "find" => {
            let mut a = act(&i["act"]);
            let all: Vec<Value> = a.articles().map(|x| json!(x.identifier.to_string())).collect();
            let found: Vec<Value> = arr(&i["ids"]).iter().map(|x| a.article(p(x)).map_or(json!([]), |x| json!([child_view(&x.clone().into())]))).collect();
            for (n, x) in arr(&i["ids"]).iter().enumerate() {
                if let Some(x) = a.article_mut(p(x)) {
                    x.title = Some(format!("found {}", n + 1));
                }
            }
            ok(json!({"all": all, "found": found, "ch": children_view(&a.children)}))
        }
        "wire" => wire(&act(&i["act"])),
        "text" => {
            let mut o = vec![];
            match act(&i["act"]).cli_output(int(&i["width"]) as usize, format(gs(i, "f")), &mut o) {
                Ok(()) => ok(written(gs(i, "f"), o)),
                Err(_) => err(),
            }
        }
        "raw" => {
            let raw = ActRawText {
                identifier: act_id(&i["y"], &i["n"]),
                subject: st(&i["subject"]),
                publication_date: day(&i["date"]),
                body: lines(&i["ls"]),
            };
            let mut o = vec![];
            match raw.cli_output(int(&i["width"]) as usize, format(gs(i, "f")), &mut o) {
                Ok(()) => ok(written(gs(i, "f"), o)),
                Err(_) => err(),
            }
        }
        "pages" => {
            let pages: Vec<PageOfLines> = arr(&i["ps"]).iter().map(|x| PageOfLines { lines: lines(x) }).collect();
            let mut o = vec![];
            match pages.cli_output(int(&i["width"]) as usize, format(gs(i, "f")), &mut o) {
                Ok(()) => ok(written(gs(i, "f"), o)),
                Err(_) => err(),
            }
        }
        "show" => ok(json!(quick_display_indented_line(&line(&i["l"]), flag(&i["tags"])))),
        o => panic!("HARNESS: op {o}"),
    }
}
