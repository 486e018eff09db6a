use hun_law::identifier::range::IdentifierRange;
use hun_law::identifier::*;
use hun_law::reference::structural::*;
use hun_law::reference::Reference;
use hun_law::semantic_info::{self as si, SpecialPhrase};
use hun_law::structure::*;
use hun_law::util::compact_string::CompactString;
use serde_json::{json, Value};

use crate::structure::{child_view, lines, sae_view};
use crate::{gs, ok};

fn opt(v: &Value) -> Option<String> {
    v.as_array().unwrap().first().map(|s| s.as_str().unwrap().to_string())
}
fn p<T: std::str::FromStr>(s: &str) -> T {
    s.parse().unwrap_or_else(|_| panic!("REFUSED: {s}"))
}

fn position(v: &Value) -> Option<SpecialPhrase> {
    let s = || gs(v, "v");
    let c = |s: &str| -> IdentifierRange<ArticleIdentifier> {
        CompactString::from_compact_string(s).unwrap_or_else(|_| panic!("REFUSED: {s}"))
    };
    let structural_element = match gs(v, "t") {
        "none" => return None,
        "ref" => {
            return Some(
                si::BlockAmendment {
                    position: Reference::from_compact_string(s()).unwrap_or_else(|_| panic!("REFUSED: {v}")),
                    pure_insertion: false,
                }
                .into(),
            )
        }
        "part" => StructuralReferenceElement::Part(p(s())),
        "title" => StructuralReferenceElement::Title(p(s())),
        "chapter" => StructuralReferenceElement::Chapter(p(s())),
        "subid" => StructuralReferenceElement::SubtitleId(p(s())),
        "subtitle" => StructuralReferenceElement::SubtitleTitle(s().into()),
        "subafter" => StructuralReferenceElement::SubtitleAfterArticle(p(s())),
        "subbefore" => StructuralReferenceElement::SubtitleBeforeArticle(p(s())),
        "subincl" => StructuralReferenceElement::SubtitleBeforeArticleInclusive(p(s())),
        "subunknown" => StructuralReferenceElement::SubtitleUnknown,
        "subrange" => StructuralReferenceElement::SubtitleRange(
            CompactString::from_compact_string(s()).unwrap_or_else(|_| panic!("REFUSED: {v}")),
        ),
        "art" => StructuralReferenceElement::Article(c(s())),
        _ => panic!("HARNESS: {v}"),
    };
    Some(
        si::StructuralBlockAmendment {
            position: StructuralReference {
                act: None,
                book: None,
                parent: None,
                structural_element,
                title_only: v["only"].as_bool().unwrap(),
            },
            pure_insertion: true,
        }
        .into(),
    )
}

pub fn eval(i: &Value) -> Value {
    let special_phrase = position(&i["pos"]);
    let other = special_phrase.is_none();
    let mut para = Paragraph {
        identifier: ParagraphIdentifier::default(),
        body: SAEBody::Children {
            intro: gs(i, "intro").into(),
            children: ParagraphChildren::QuotedBlock(
                i["qbs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|b| QuotedBlock { intro: opt(&b["in"]), lines: lines(&b["ls"]), wrap_up: opt(&b["wu"]) })
                    .collect(),
            ),
            wrap_up: opt(&i["wu"]),
        },
        semantic_info: si::SemanticInfo { special_phrase, ..Default::default() },
        last_change: None,
    };
    let before = para.clone();
    // through the paragraph, through its article and through its act: the same must happen
    let mut article = Article { identifier: p("3"), title: None, children: vec![before.clone(), para.clone()], last_change: None };
    if !other {
        article.children.remove(0);
    }
    let mut act = Act {
        identifier: ActIdentifier { year: 2012, number: 1 },
        subject: "".into(),
        preamble: "".into(),
        publication_date: Default::default(),
        contained_abbreviations: Default::default(),
        children: vec![article.clone().into()],
    };
    let done = para.convert_block_amendments().is_ok();
    let done2 = article.convert_block_amendments().is_ok();
    let done3 = act.convert_block_amendments().is_ok();
    let ActChild::Article(a3) = &act.children[0] else { unreachable!() };
    if done2 != done || done3 != done || article.children.last() != Some(&para) || a3 != &article {
        return ok(json!({"differs": child_view(&act.children[0])}));
    }
    if para.semantic_info != before.semantic_info || para.last_change.is_some() {
        return ok(json!("something else changed"));
    }
    ok(json!({"done": done, "p": sae_view(&para)}))
}
