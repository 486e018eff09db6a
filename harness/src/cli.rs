//! Histories of runs of the command line tool in a scratch directory: reading acts, correcting them in an editor.
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use serde_json::{json, Value};

fn win(c: char) -> i64 {
    match c {
        '„' => 132,
        '”' => 148,
        '“' => 147,
        '–' => 150,
        'ő' => 245,
        'ű' => 251,
        'Ő' => 213,
        'Ű' => 219,
        c if (c as u32) < 256 => c as i64,
        c => panic!("HARNESS: cannot write {c:?}"),
    }
}

/// one page: lines of [text, bold, indentation in points]; empty texts are empty lines
fn page(lines: &[(String, bool, i64)]) -> Value {
    let mut ops = vec![json!(["BT"])];
    let mut y = 764;
    // the running head of the page, which is not part of its text
    for h in ["M A G Y A R K Ö Z L Ö N Y", "2011. évi LXXX. törvény"] {
        y += 14;
        ops.push(json!(["Tf", "R", 8]));
        ops.push(json!(["Tm", 1, 0, 0, 1, 72 * 8, (753 + (y - 778)) * 8]));
        ops.push(json!(["Tj", h.chars().map(win).collect::<Vec<i64>>()]));
    }
    y = 763;
    for (t, b, x) in lines {
        y -= 12;
        if t.is_empty() {
            continue;
        }
        let codes: Vec<i64> = t.chars().map(win).collect();
        ops.push(json!(["Tf", if *b { "B" } else { "R" }, 8]));
        ops.push(json!(["Tm", 1, 0, 0, 1, x * 8, y * 8]));
        ops.push(json!(["Tj", codes]));
    }
    assert!(y > 0, "HARNESS: page too long");
    ops.push(json!(["ET"]));
    json!({"vis": [["R", "f0"], ["B", "f1"]], "ops": ops})
}

/// An issue with the given acts: header, subject and body lines each
pub fn issue(acts: &[(String, String, Vec<(String, bool, i64)>)], date: &str) -> Vec<u8> {
    let l = |t: &str, b: bool| (t.to_string(), b, 72);
    let w: Vec<i64> = (32..256).map(|c| if c == 32 { 250 } else { 500 }).collect();
    let font = |n: &str, base: &str| json!({"n": n, "base": base, "kind": "simple", "enc": "win", "diff": [], "tu": [], "first": 32, "w": w, "dw": 500});
    let mut pages = vec![page(&[
        l("MAGYAR KÖZLÖNY 71. szám", false),
        l("", false),
        l("A MAGYAR KÖZTÁRSASÁG HIVATALOS LAPJA", false),
        l(date, false),
    ])];
    for (n, (head, subject, body)) in acts.iter().enumerate() {
        let mut ls = vec![];
        if n == 0 {
            ls.push(l("II. Törvények", true));
            ls.push(l("", false));
        }
        ls.push(l(head, true));
        ls.push(l(&format!("{subject}*"), true));
        ls.extend(body.iter().cloned());
        ls.push(l("", false));
        ls.push(l("X Y s. k., Z W s. k.,", false));
        ls.push(l("köztársasági elnök az Országgyűlés elnöke", false));
        pages.push(page(&ls));
    }
    if acts.is_empty() {
        pages.push(page(&[l("III. Kormányrendeletek", true), l("", false), l("Egy rendelet.", false)]));
    }
    crate::pdfw::write(&json!({"fonts": [font("f0", "Times-Roman"), font("f1", "Times-Bold")], "gs": [], "forms": [], "pages": pages}))
}

/// hlh started as "editor": shows the file to the harness and replaces it with what the user wrote
pub fn editor() {
    let file = std::env::args().nth(1).unwrap();
    let plus = std::env::args().nth(2).unwrap_or_default();
    let dir = PathBuf::from(std::env::var("HLH_SESSION").unwrap());
    if dir.join("plan").exists() {
        return crate::runs::editor(&dir, &file);
    }
    let mut seen = std::fs::read_to_string(&file).unwrap();
    seen.push_str(&plus);
    std::fs::write(dir.join("seen"), seen).unwrap();
    std::fs::write(&file, std::fs::read(dir.join("edit")).unwrap()).unwrap();
}

pub struct Scratch {
    pub dir: tempfile::TempDir,
}
impl Scratch {
    pub fn new() -> Self {
        let dir = tempfile::tempdir().expect("HARNESS: tempdir");
        std::os::unix::fs::symlink(std::env::current_exe().unwrap(), dir.path().join("editor")).unwrap();
        std::fs::create_dir_all(dir.path().join("out")).unwrap();
        std::fs::create_dir_all(dir.path().join("data")).unwrap();
        Self { dir }
    }
    pub fn path(&self) -> &Path {
        self.dir.path()
    }
    pub fn put(&self, rel: &str, data: &[u8]) {
        let p = self.path().join(rel);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, data).unwrap();
    }
    /// (exit status, standard output); the publisher cannot be reached; a run that does not end is an abnormal exit
    pub fn run(&self, args: &[&str], stdin: &str) -> (Option<i32>, String) {
        let cli = std::env::var("HLH_CLI").expect("HARNESS: HLH_CLI");
        let mut c = Command::new("timeout");
        if let Ok(shim) = std::env::var("HLH_SHIM") {
            c.env("LD_PRELOAD", shim).env("HLH_PORT", "1");
        }
        let mut c = c
            .args(["-s", "KILL", "30"])
            .arg(cli)
            .args(args)
            .current_dir(self.path())
            .env("HLH_SESSION", self.path())
            .env("RUST_LOG", "error")
            .env("TMPDIR", self.path())
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("HARNESS: the command line tool does not start");
        use std::io::Write;
        let _ = c.stdin.take().unwrap().write_all(stdin.as_bytes());
        let o = c.wait_with_output().unwrap();
        (o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned())
    }
}

pub const ACTS: [(&str, &str, &str); 2] = [("2011/80", "2011. évi LXXX. törvény", "LXXX"), ("2011/81", "2011. évi LXXXI. törvény", "LXXXI")];

pub fn lines_of(v: &Value) -> Vec<(String, bool, i64)> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| (x["t"].as_str().unwrap().to_string(), x["b"].as_bool().unwrap(), x.get("x").and_then(Value::as_i64).unwrap_or(72)))
        .collect()
}

pub fn setup(raws: &Value) -> Scratch {
    let s = Scratch::new();
    let acts: Vec<_> = raws
        .as_array()
        .unwrap()
        .iter()
        .zip(ACTS)
        .map(|(b, (_, head, _))| (head.to_string(), "a dologról".to_string(), lines_of(b)))
        .collect();
    s.put("cache/MK/2011/71.pdf", &issue(&acts, "2011. június 28., kedd"));
    s.put("data/act_to_mk_issue.csv", b"mk_issue,act\n2011/70,2011/79\n2011/71,2011/80\n2011/71,2011/81\n");
    s
}

/// the lines of an act as the tool prints them: [text, bold]
fn read(s: &Scratch, a: usize) -> Value {
    let (id, head, _) = ACTS[a];
    let out = s.path().join(format!("out/{head}.txt"));
    let _ = std::fs::remove_file(&out);
    let (code, _) = s.run(&["-p", "act-lines", "-t", "test-plain", "-o", "out", id], "");
    if code != Some(0) {
        return json!({"code": code.map_or(-1, |_| 1)});
    }
    let text = match std::fs::read_to_string(&out) {
        Ok(t) => t,
        Err(_) => return json!({"code": 0, "missing": true}),
    };
    let lines: Vec<Value> = text
        .lines()
        .skip(3)
        .map(|l| {
            let b = l.starts_with("<BOLD>");
            let l = l.strip_prefix("<BOLD>").unwrap_or(l);
            let l = l.strip_prefix("<NJ>").unwrap_or(l);
            json!({"t": l.trim_matches(' '), "b": b})
        })
        .collect();
    json!({"code": 0, "lines": lines})
}

fn edit(s: &Scratch, a: usize, step: &Value) -> Value {
    let eol = step["eol"].as_str().unwrap();
    let mut new: String = step["lines"].as_array().unwrap().iter().map(|l| l.as_str().unwrap()).collect::<Vec<_>>().join(eol);
    if step["last"] == true {
        new.push_str(eol);
    }
    s.put("edit", new.as_bytes());
    let seen = s.path().join("seen");
    let _ = std::fs::remove_file(&seen);
    let (code, _) = s.run(&["-i", "--force-fixup-editor", "-e", "./editor", "-o", "out", ACTS[a].0], "y\nn\n");
    let code = match code {
        Some(0) => 0,
        Some(101) | None => 101,
        Some(_) => 1,
    };
    match std::fs::read_to_string(&seen) {
        Err(_) => json!({"code": code}),
        Ok(t) => {
            let mut ls: Vec<&str> = t.split('\n').collect();
            let plus = ls.pop().unwrap();
            json!({"code": code, "plus": plus, "shown": ls.iter().map(|l| {
                let level: String = l.chars().take(5).collect();
                let text: String = l.chars().skip(5).collect();
                json!({"q": level.trim(), "t": text.trim_matches(' ')})
            }).collect::<Vec<_>>()})
        }
    }
}

pub fn session(i: &Value) -> Value {
    let s = setup(&i["raws"]);
    for (a, fs) in i.get("pre").and_then(Value::as_array).into_iter().flatten().enumerate() {
        let id = hun_law::identifier::ActIdentifier { year: 2011, number: 80 + a as i32 };
        let mut f = hun_law::fixups::Fixups::load_from(id, s.path().join("data/fixups")).expect("HARNESS: fixups");
        for x in fs.as_array().unwrap() {
            f.add(crate::fixup::fix(x));
        }
        f.save().expect("HARNESS: fixups");
    }
    if let Some(st) = i.get("store").and_then(Value::as_str) {
        s.put("data/fixups/2011/2011. évi LXXX. törvény.yml", st.as_bytes());
    }
    let steps: Vec<Value> = i["steps"]
        .as_array()
        .unwrap()
        .iter()
        .map(|st| {
            let a = st["a"].as_u64().unwrap() as usize - 1;
            match st["op"].as_str().unwrap() {
                "read" => read(&s, a),
                "edit" => edit(&s, a, st),
                o => panic!("HARNESS: step {o}"),
            }
        })
        .collect();
    json!({"r": "ok", "v": steps})
}
