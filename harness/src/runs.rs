//! Runs of the command line tool over scratch caches, lists of acts and output directories.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

use hun_law::fixups::Fixup;
use hun_law::mk_downloader::DEFAULT_MK_CROP;
use hun_law::output::{CliOutput, OutputFormat};
use hun_law::parser::mk_act_section::parse_mk_pages_into_acts;
use hun_law::parser::pdf::parse_pdf;
use hun_law::parser::structure::parse_act_structure;
use serde_json::{json, Value};

use crate::cli::{issue, Scratch};
use crate::{gs, ok};

fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("HARNESS: not a list: {v}"))
}
fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("HARNESS: not a number: {v}"))
}

fn roman(mut n: i64) -> String {
    let mut s = String::new();
    for (v, r) in [(1000, "M"), (900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")] {
        while n >= v {
            n -= v;
            s.push_str(r);
        }
    }
    s
}
fn name(a: &Value) -> String {
    format!("{}. évi {}. törvény", a["y"], roman(int(&a["n"])))
}

/// a line that stops the reading of the act, and what it should have been
fn wrong(kind: &str, n: usize) -> (String, String) {
    match kind {
        "q" => (format!("{}. § Ez „hiba ({n}).", n + 2), format!("{}. § Ez jó ({n}).", n + 2)),
        "s" => (format!("{}. § Ez szemhiba ({n}).", n + 2), format!("{}. § Ez is jó ({n}).", n + 2)),
        "c" => (format!("„nem cikk {n}”"), format!("„{}. § Új szöveg.”", n + 30)),
        "e" => (format!("„felesleges {n}"), String::new()),
        k => panic!("HARNESS: {k}"),
    }
}
/// Every wrong line starts or stands in an article of its own
fn body(a: &Value) -> Vec<(String, bool, i64)> {
    let mut ls: Vec<(String, bool, i64)> = vec![];
    let mut l = |t: &str, x: i64| ls.push((t.to_string(), false, x));
    let n = int(&a["n"]);
    l(&format!("1. § (1) Ez a(z) {n}. törvény, amelynek ez a bekezdése olyan"), 72);
    l("hosszú, hogy több sorba kell tördelni, bármilyen széles is", 72);
    l("a szöveg.", 72);
    l("(2) Ez", 72);
    l("a) az egyik,", 84);
    l("b) a másik", 84);
    l("dolog.", 72);
    l("", 0);
    l("", 0);
    l("2. § A tárgyról szóló törvény a következő 5. §-sal egészül ki:", 72);
    l("„5. § Új szöveg.”", 84);
    l("", 0);
    l("", 0);
    l("", 0);
    for (n, k) in arr(&a["bad"]).iter().enumerate() {
        if k == "c" {
            l(&format!("{}. § A tárgyról szóló törvény a következő {}. §-sal egészül ki:", n + 3, n + 31), 72);
        }
        if k == "e" {
            l(&format!("{}. § Ez is rendben van.", n + 3), 72);
            l("", 0);
        }
        l(&wrong(k.as_str().unwrap(), n + 1).0, if k == "c" { 84 } else { 72 });
        l("", 0);
    }
    l(&format!("{}. § Ez a vége.", arr(&a["bad"]).len() + 3), 72);
    ls
}
fn pdf(i: &Value) -> Vec<u8> {
    let acts: Vec<_> = arr(&i["acts"]).iter().map(|a| (name(a), format!("a(z) {}. dologról", a["n"]), body(a))).collect();
    issue(&acts, if gs(i, "st") == "nodate" { "nincs dátum" } else { "2011. június 28., kedd" })
}

pub fn editor(dir: &Path, file: &str) {
    let plan = std::fs::read_to_string(dir.join("plan")).unwrap();
    let (op, rest) = plan.split_once('\n').unwrap_or(("none", ""));
    let text = std::fs::read_to_string(file).unwrap();
    let mut ls: Vec<String> = text.lines().map(String::from).collect();
    match op {
        "fix" => {
            'found: for l in ls.iter_mut() {
                for k in ["q", "s", "c", "e"] {
                    for n in 1..10 {
                        let (bad, good) = wrong(k, n);
                        if l.contains(&bad) {
                            *l = l.replace(&bad, &good);
                            break 'found;
                        }
                    }
                }
            }
        }
        "cut" => {
            ls.pop();
        }
        _ => {}
    }
    std::fs::write(file, ls.join("\n") + "\n").unwrap();
    std::fs::write(dir.join("plan"), rest).unwrap();
}

fn format(f: &str) -> Option<OutputFormat> {
    Some(match f {
        "plain" => OutputFormat::Plain,
        "test-plain" => OutputFormat::TestPlain,
        "colored" => OutputFormat::Colored,
        "json" => OutputFormat::Json,
        "yaml" => OutputFormat::Yaml,
        _ => return None,
    })
}
/// as given, the same with the default and with the short names resolved
fn formats(r: &Value) -> Vec<&str> {
    match gs(r, "fmt") {
        "" | "yml" => vec!["yaml"],
        "txt" | "plain" => vec!["plain", "colored"],
        "color" => vec!["colored"],
        f => vec![f],
    }
}

/// What could have been written under the name: (what it is made of, its contents)
type Candidates = BTreeMap<String, Vec<(String, Vec<u8>)>>;

fn candidates(w: &Value, runs: &[Value]) -> Candidates {
    let mut out = Candidates::new();
    let mut fmts: BTreeSet<&str> = BTreeSet::new();
    let mut widths: BTreeSet<usize> = BTreeSet::new();
    let mut steps: BTreeSet<&str> = BTreeSet::new();
    for r in runs {
        fmts.extend(formats(r));
        widths.insert(if r["w"] == 0 { 105 } else { int(&r["w"]) as usize });
        steps.insert(if gs(r, "step").is_empty() { "semantic" } else { gs(r, "step") });
    }
    for i in arr(&w["issues"]) {
        let st = gs(i, "st");
        if st != "ok" && st != "nodate" {
            continue;
        }
        let bytes = pdf(i);
        let read = || parse_pdf(&bytes, DEFAULT_MK_CROP.clone()).unwrap_or_else(|_| panic!("REFUSED: issue {i}"));
        let pages = read();
        let mk = format!("mk_{}_{}", i["y"], i["n"]);
        for f in &fmts {
            let Some(fmt) = format(f) else { continue };
            let mut o = vec![];
            read().cli_output(105, fmt, &mut o).unwrap();
            out.entry(mk.clone()).or_default().push((format!("{mk} {f}"), o));
        }
        if st != "ok" {
            continue;
        }
        let acts = parse_mk_pages_into_acts(&pages).unwrap_or_else(|_| panic!("REFUSED: acts {i}"));
        assert_eq!(acts.len(), arr(&i["acts"]).len(), "REFUSED: {i}");
        for (raw, a) in acts.into_iter().zip(arr(&i["acts"])) {
            let bad: Vec<&str> = arr(&a["bad"]).iter().map(|k| k.as_str().unwrap()).collect();
            for done in 0..=bad.len() {
                let mut raw = raw.clone();
                for (n, k) in bad[..done].iter().enumerate() {
                    let (old, new) = wrong(k, n + 1);
                    Fixup { after: vec![], old, new, set_bold: false }.apply(&mut raw.body).unwrap_or_else(|_| panic!("REFUSED: fixup {a}"));
                }
                raw.remove_double_empty_lines();
                for step in &steps {
                    for f in &fmts {
                        let Some(fmt) = format(f) else { continue };
                        let text = matches!(fmt, OutputFormat::Plain | OutputFormat::TestPlain | OutputFormat::Colored);
                        let sized = text && *step != "act-lines";
                        for width in if sized { widths.iter().copied().collect() } else { vec![105] } {
                            let mut o = vec![];
                            match *step {
                                "act-lines" => raw.clone().cli_output(width, fmt, &mut o).unwrap(),
                                "structure" | "semantic" => {
                                    let Ok(mut act) = parse_act_structure(&raw) else { continue };
                                    if std::env::var("HLH_DEBUG").is_ok() { eprintln!("{:?} {:?}", act.clone().add_semantic_info(), {let mut b = act.clone(); let _ = b.add_semantic_info(); b.convert_block_amendments()}) }
                                    if *step == "semantic" && (act.add_semantic_info().is_err() || act.convert_block_amendments().is_err()) {
                                        continue;
                                    }
                                    act.cli_output(width, fmt, &mut o).unwrap()
                                }
                                _ => continue,
                            }
                            let w = if sized { format!(" {width}") } else { String::new() };
                            out.entry(name(a)).or_default().push((format!("{}/{} {step} {f}{w} {done}", a["y"], a["n"]), o));
                        }
                    }
                }
            }
        }
    }
    for v in out.values_mut() {
        v.push(("nothing".into(), vec![]));
    }
    out
}

fn listing(dir: &Path, rel: &str, out: &mut BTreeMap<String, Vec<u8>>) {
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let r = format!("{rel}{}", e.file_name().to_string_lossy());
        if ["out", "data/fixups", "plan", "editor"].contains(&r.as_str()) {
            continue;
        }
        if e.file_type().unwrap().is_dir() {
            listing(&e.path(), &format!("{r}/"), out);
        } else {
            out.insert(r, std::fs::read(e.path()).unwrap_or_default());
        }
    }
}
fn others(s: &Scratch) -> BTreeMap<String, Vec<u8>> {
    let mut o = BTreeMap::new();
    listing(s.path(), "", &mut o);
    o
}

/// (name, contents) of what is announced on the standard output, and what came before
fn said(out: &str) -> (String, Vec<(String, String)>) {
    let re = regex::Regex::new(r"------ (mk_-?\d+_-?\d+|-?\d+\. évi \S+ törvény) ------\n").unwrap();
    let mut parts = vec![];
    let hits: Vec<_> = re.captures_iter(out).map(|c| (c.get(0).unwrap().range(), c[1].to_string())).collect();
    for (n, (at, name)) in hits.iter().enumerate() {
        let end = hits.get(n + 1).map_or(out.len(), |h| h.0.start);
        parts.push((name.clone(), out[at.end..end].to_string()));
    }
    (out[..hits.first().map_or(out.len(), |h| h.0.start)].to_string(), parts)
}

fn run(s: &Scratch, r: &Value, can: &Candidates) -> Value {
    let mut args: Vec<String> = vec![];
    let mut opt = |a: &str, v: String| {
        args.push(a.into());
        args.push(v);
    };
    for (a, k) in [("-t", "fmt"), ("-p", "step")] {
        if gs(r, k) != "" {
            opt(a, gs(r, k).into());
        }
    }
    if r["w"] != 0 {
        opt("-w", r["w"].to_string());
    }
    match gs(r, "out") {
        "" => {}
        "dir" => opt("-o", "out".into()),
        "missing" => opt("-o", "nowhere".into()),
        o => panic!("HARNESS: {o}"),
    }
    if gs(r, "cache") != "" {
        opt("-c", gs(r, "cache").into());
    }
    if r["ia"] == true {
        opt("-e", "./editor".into());
        args.push("-i".into());
    }
    if r["mk"] == true {
        args.push("--mk".into());
    }
    args.extend(arr(&r["ids"]).iter().map(|i| i.as_str().unwrap().to_string()));
    let lines = |k: &str| arr(&r[k]).iter().map(|x| format!("{}\n", x.as_str().unwrap())).collect::<String>();
    s.put("plan", lines("plan").as_bytes());
    let before = others(s);
    let (code, out) = s.run(&args.iter().map(String::as_str).collect::<Vec<_>>(), &lines("ans"));
    let after = others(s);
    let other: Vec<&String> = before.keys().chain(after.keys()).filter(|k| before.get(*k) != after.get(*k)).collect::<BTreeSet<_>>().into_iter().collect();
    let mut files: Vec<_> = std::fs::read_dir(s.path().join("out")).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
    files.sort();
    let files: Vec<Value> = files
        .into_iter()
        .map(|f| {
            let data = std::fs::read(s.path().join("out").join(&f)).unwrap();
            let stem = f.rsplit_once('.').map_or(f.as_str(), |x| x.0);
            let is: Vec<&String> = can.get(stem).into_iter().flatten().filter(|c| c.1 == data).map(|c| &c.0).collect();
            json!({"n": f, "is": is})
        })
        .collect();
    let (lead, parts) = said(&out);
    let said: Vec<Value> = parts
        .iter()
        .map(|(n, t)| {
            let is: Vec<Value> = can
                .get(n)
                .into_iter()
                .flatten()
                .filter(|c| t.as_bytes().starts_with(&c.1))
                .map(|c| json!([c.0, if t.len() > c.1.len() { "more" } else { "all" }]))
                .collect();
            json!({"n": n, "is": is})
        })
        .collect();
    let code = match code {
        Some(0) => 0,
        Some(101) | None => 101,
        Some(_) => 1,
    };
    json!({"b": [{"code": code, "files": files, "said": said, "lead": !lead.is_empty(), "other": other}]})
}

pub fn eval(i: &Value) -> Value {
    let w = &i["w"];
    let runs = arr(&i["runs"]);
    let s = Scratch::new();
    for x in arr(&w["issues"]) {
        let path = format!("{}/MK/{}/{}.pdf", gs(x, "at"), x["y"], x["n"]);
        match gs(x, "st") {
            "ok" | "nodate" => s.put(&path, &pdf(x)),
            "none" => {}
            "junk" => s.put(&path, "ez nem egy közlöny".as_bytes()),
            "empty" => s.put(&path, b""),
            "cut" => {
                let d = pdf(x);
                s.put(&path, &d[..d.len() / 2])
            }
            st => panic!("HARNESS: {st}"),
        }
        for a in arr(&x["acts"]) {
            if a["stuck"] == true {
                // a record that does not fit the act, or that is no record
                let what = ["- old: nincs ilyen sor\n  new: ez sincs\n", "- old: [\n", "nincs: ilyen\n"][a["n"].as_u64().unwrap_or(0) as usize % 3];
                s.put(&format!("data/fixups/{}/{}.yml", a["y"], name(a)), what.as_bytes());
            }
        }
    }
    let csv = &w["csv"];
    if gs(csv, "st") != "none" {
        let mut t = "mk_issue,act,title\n".to_string();
        for row in arr(&csv["rows"]) {
            t += &format!("{},{},\"A dologról, meg a másikról\"\n", gs(row, "i"), gs(row, "a"));
        }
        if gs(csv, "st") == "bad" {
            t += "2011/99\n";
        }
        s.put("data/act_to_mk_issue.csv", t.as_bytes());
    }
    let can = candidates(w, runs);
    let o: Vec<Value> = runs.iter().map(|r| run(&s, r, &can)).collect();
    ok(json!(o))
}
