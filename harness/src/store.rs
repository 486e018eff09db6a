//! What lasts between runs: the recorded corrections and the cached issues.  Operations are carried out by child
//! processes in which the n-th change to the file system crashes, fails or waits (see shim/shim.c), for every n.
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use hun_law::fixups::{Fixup, Fixups};
use hun_law::identifier::ActIdentifier;
use hun_law::mk_downloader::{download_mk_issue, MkIssue};
use serde_json::{json, Value};

// ------------------------------------------------------------------------------------------------- children

fn fix(v: &Value) -> Fixup {
    Fixup {
        after: v["after"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
        old: v["old"].as_str().unwrap().to_string(),
        new: v["new"].as_str().unwrap().to_string(),
        set_bold: v["bold"].as_bool().unwrap(),
    }
}
fn save(dir: &Path, act: &Value, add: &Value) -> bool {
    let id = ActIdentifier { year: act[0].as_i64().unwrap() as i16, number: act[1].as_i64().unwrap() as i32 };
    let f = || -> anyhow::Result<()> {
        let mut fs = Fixups::load_from(id, dir.to_path_buf())?;
        for a in add.as_array().unwrap() {
            fs.add(fix(a));
        }
        fs.save()
    };
    f().is_ok()
}
/// hlh child <request>: one operation
pub fn child() {
    let r: Value = serde_json::from_str(&std::env::args().nth(2).unwrap()).unwrap();
    let dir = PathBuf::from(r["dir"].as_str().unwrap());
    let ok = if r["op"] == "save" {
        save(&dir, &r["act"], &r["add"])
    } else {
        match download_mk_issue(&issue(&r["issue"]), &dir) {
            Ok(b) => {
                std::fs::write(r["out"].as_str().unwrap(), b).unwrap();
                true
            }
            Err(_) => false,
        }
    };
    std::process::exit(if ok { 0 } else { 3 });
}
fn issue(v: &Value) -> MkIssue {
    MkIssue { year: v[0].as_i64().unwrap(), issue: v[1].as_i64().unwrap() }
}
struct Kid {
    child: Child,
    flag: PathBuf,
}
fn start(base: &Path, dir: &Path, req: &Value, how: &str, at: usize, port: u16) -> Kid {
    let flag = base.join("flag");
    for s in ["failed", "paused", "go"] {
        let _ = std::fs::remove_file(flag.with_extension(s));
    }
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("child").arg(req.to_string()).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    c.env("HLH_UNDER", dir).env("HLH_FLAG", &flag).env("HLH_PORT", port.to_string());
    if how != "none" {
        c.env("HLH_HOW", how).env("HLH_AT", at.to_string());
        if how != "pause" {
            // the next process may well have the number of the one that was ended
            c.env("HLH_PID", std::process::id().to_string());
        }
    }
    Kid { child: c.spawn().expect("HARNESS: child"), flag }
}
impl Kid {
    fn noted(&self, s: &str) -> bool {
        self.flag.with_extension(s).exists()
    }
    fn ended(&mut self, limit: Duration) -> bool {
        let t = Instant::now();
        loop {
            if self.child.try_wait().unwrap().is_some() {
                return true;
            }
            if t.elapsed() > limit {
                return false;
            }
            std::thread::sleep(Duration::from_micros(500));
        }
    }
    /// (was the operation disturbed, how it ended)
    fn end(mut self) -> (bool, &'static str) {
        if !self.ended(Duration::from_secs(30)) {
            let _ = self.child.kill();
            let _ = self.child.wait();
            return (false, "hang");
        }
        match self.child.wait().unwrap().code() {
            Some(77) => (true, "crash"),
            Some(0) => (self.noted("failed"), "done"),
            Some(3) => (self.noted("failed"), "error"),
            _ => (self.noted("failed"), "panic"),
        }
    }
}
fn copy_tree(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).unwrap();
    for e in std::fs::read_dir(a).unwrap() {
        let e = e.unwrap();
        if e.file_type().unwrap().is_dir() {
            copy_tree(&e.path(), &b.join(e.file_name()));
        } else {
            std::fs::copy(e.path(), b.join(e.file_name())).unwrap();
        }
    }
}

// ------------------------------------------------------------------------------------------------- the publisher

#[derive(Default)]
struct Book {
    requests: Vec<Value>,
    srv: String,
    len: usize,
    count: u64,
}
struct Server {
    port: u16,
    book: Arc<Mutex<Book>>,
}
fn body(path: &str, version: u64, len: usize) -> Vec<u8> {
    // the store keeps bytes and has no business with what they mean: some begin with blanks,
    // some with something no document begins with, some end in blanks or in zeros
    let front: &[u8] = [&b"%PDF"[..], b"\xff\xfe", b"\0", b"<html>"][(version as usize + len) % 4];
    let back: &[u8] = [&b""[..], b"\n", b"\0\0\0", b" \r\n \n"][(version as usize + len / 3) % 4];
    let mut b = front.to_vec();
    b.extend(format!(" {path} {version} {len}\n").bytes());
    b.extend((0..len).map(|k| (k as u64 * 31 + version * 7) as u8));
    b.extend(format!("%%EOF {version}").bytes());
    b.extend(back);
    b
}
/// which version of the issue it is: 0 if none, -1 if it is not complete
fn version(path: &str, b: &[u8]) -> i64 {
    let head = String::from_utf8_lossy(&b[..b.len().min(80)]).into_owned();
    let w: Vec<&str> = head.split('\n').next().unwrap().split(' ').collect();
    if w.len() == 4 {
        if let (Ok(v), Ok(l)) = (w[2].parse::<u64>(), w[3].parse::<usize>()) {
            if body(path, v, l) == b {
                return v as i64;
            }
        }
    }
    -1
}
fn serve(mut s: TcpStream, book: &Mutex<Book>) -> std::io::Result<()> {
    let mut r = BufReader::new(s.try_clone()?);
    let (mut path, mut host, mut method) = (String::new(), String::new(), String::new());
    loop {
        let mut l = String::new();
        if r.read_line(&mut l)? == 0 || l.trim().is_empty() {
            break;
        }
        let w: Vec<&str> = l.trim().split(' ').collect();
        if path.is_empty() && w.len() == 3 {
            method = w[0].to_string();
            path = w[1].to_string();
        } else if w[0].eq_ignore_ascii_case("host:") {
            host = w[1].to_string();
        }
    }
    let (srv, b) = {
        let mut k = book.lock().unwrap();
        k.count += 1;
        k.requests.push(json!({"m": method, "path": path, "host": host}));
        (k.srv.clone(), body(&path, k.count, k.len))
    };
    let n = b.len();
    match srv.as_str() {
        "ok" => {
            write!(s, "HTTP/1.1 200 OK\r\nContent-Type: application/pdf\r\nContent-Length: {n}\r\nConnection: close\r\n\r\n")?;
            s.write_all(&b)?;
        }
        "close" => {
            write!(s, "HTTP/1.0 200 OK\r\nContent-Type: application/pdf\r\n\r\n")?;
            s.write_all(&b)?;
        }
        "chunked" | "cutchunk" => {
            write!(s, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n")?;
            for (k, c) in b.chunks(n / 3 + 1).enumerate() {
                if k == 2 && srv == "cutchunk" {
                    return Ok(());
                }
                write!(s, "{:x}\r\n", c.len())?;
                s.write_all(c)?;
                write!(s, "\r\n")?;
            }
            write!(s, "0\r\n\r\n")?;
        }
        "cut" => {
            write!(s, "HTTP/1.1 200 OK\r\nContent-Length: {n}\r\nConnection: close\r\n\r\n")?;
            s.write_all(&b[..n / 2])?;
        }
        "drop" => {}
        code => {
            write!(s, "HTTP/1.1 {code} No\r\nContent-Length: {n}\r\nConnection: close\r\n\r\n")?;
            s.write_all(&b)?;
        }
    }
    s.flush()?;
    s.shutdown(std::net::Shutdown::Write)?;
    let _ = r.read(&mut [0u8; 16]);
    Ok(())
}
impl Server {
    fn new() -> Self {
        let l = TcpListener::bind("127.0.0.1:0").expect("HARNESS: no loopback");
        let port = l.local_addr().unwrap().port();
        let book = Arc::new(Mutex::new(Book::default()));
        let b = book.clone();
        std::thread::spawn(move || {
            for s in l.incoming() {
                let s = match s {
                    Ok(s) => s,
                    Err(_) => return,
                };
                let _ = s.set_read_timeout(Some(Duration::from_secs(10)));
                if b.lock().unwrap().srv == "stop" {
                    return;
                }
                let _ = serve(s, &b);
            }
        });
        Self { port, book }
    }
    fn set(&self, srv: &str, len: usize) {
        let mut b = self.book.lock().unwrap();
        b.srv = srv.to_string();
        b.len = len;
    }
    fn asked(&self) -> Vec<Value> {
        std::mem::take(&mut self.book.lock().unwrap().requests)
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.set("stop", 0);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
    }
}

// ------------------------------------------------------------------------------------------------- histories

const CLOSED: u16 = 1;

struct Lab {
    base: tempfile::TempDir,
    dir: PathBuf,
    n: usize,
    server: Server,
    /// acts or issues whose state is looked at
    all: Vec<Value>,
    fixups: bool,
}
impl Lab {
    fn new(i: &Value) -> Self {
        let base = tempfile::tempdir().expect("HARNESS: tempdir");
        let dir = base.path().join("d0");
        std::fs::create_dir_all(&dir).unwrap();
        Self { base, dir, n: 0, server: Server::new(), all: i["all"].as_array().unwrap().clone(), fixups: i["kind"] == "fixups" }
    }
    fn fresh(&mut self) -> PathBuf {
        self.n += 1;
        let d = self.base.path().join(format!("d{}", self.n));
        copy_tree(&self.dir, &d);
        d
    }
    fn path(&self, iss: &Value) -> String {
        format!("/nkonline/MKPDF/hiteles/MK{:02}{:03}.pdf", iss[0].as_i64().unwrap() % 100, iss[1].as_i64().unwrap())
    }
    fn seen(&self, dir: &Path) -> Value {
        self.all
            .iter()
            .map(|x| {
                if self.fixups {
                    let id = ActIdentifier { year: x[0].as_i64().unwrap() as i16, number: x[1].as_i64().unwrap() as i32 };
                    match Fixups::load_from(id, dir.to_path_buf()) {
                        Ok(f) => {
                            let l: Vec<Fixup> = f.into();
                            json!({"ok": true, "v": l.iter().map(|f| json!({"after": f.after, "old": f.old, "new": f.new, "bold": f.set_bold})).collect::<Vec<_>>()})
                        }
                        Err(_) => json!({"ok": false, "v": []}),
                    }
                } else {
                    std::env::set_var("HLH_PORT", CLOSED.to_string());
                    match download_mk_issue(&issue(x), dir) {
                        Ok(b) => json!({"ok": true, "v": version(&self.path(x), &b)}),
                        Err(_) => json!({"ok": true, "v": 0}),
                    }
                }
            })
            .collect()
    }
    fn request(&self, dir: &Path, st: &Value, out: &str) -> Value {
        let o = self.base.path().join(out);
        let _ = std::fs::remove_file(&o);
        if self.fixups {
            json!({"op": "save", "dir": dir, "act": self.all[st["a"].as_u64().unwrap() as usize - 1], "add": st["add"]})
        } else {
            json!({"op": "get", "dir": dir, "issue": self.all[st["a"].as_u64().unwrap() as usize - 1], "out": o})
        }
    }
    fn serving(&self, st: &Value) -> u16 {
        if self.fixups {
            return CLOSED;
        }
        self.server.set(st["srv"].as_str().unwrap(), st["len"].as_u64().unwrap() as usize);
        if st["srv"] == "refuse" {
            CLOSED
        } else {
            self.server.port
        }
    }
    fn got(&self, st: &Value, out: &str) -> i64 {
        let iss = &self.all[st["a"].as_u64().unwrap() as usize - 1];
        std::fs::read(self.base.path().join(out)).map_or(0, |b| version(&self.path(iss), &b))
    }
    /// what one operation does: in this process if nothing disturbs it
    fn once(&self, dir: &Path, st: &Value, how: &str, at: usize) -> Value {
        let port = self.serving(st);
        let req = self.request(dir, st, "out");
        self.server.asked();
        let before = self.server.book.lock().unwrap().count;
        let (hit, out) = if how == "none" && !self.fixups {
            std::env::set_var("HLH_PORT", port.to_string());
            match download_mk_issue(&issue(&req["issue"]), dir) {
                Ok(b) => {
                    std::fs::write(req["out"].as_str().unwrap(), b).unwrap();
                    (false, "done")
                }
                Err(_) => (false, "error"),
            }
        } else if how == "none" {
            (false, if save(dir, &req["act"], &req["add"]) { "done" } else { "error" })
        } else {
            start(self.base.path(), dir, &req, how, at, port).end()
        };
        json!({"hit": hit, "out": out, "got": if self.fixups { 0 } else { self.got(st, "out") }, "before": before,
               "asked": self.server.asked(), "seen": self.seen(dir)})
    }
    /// one operation undisturbed, or disturbed at every point in turn; then again undisturbed
    fn step(&mut self, st: &Value) -> Value {
        let how = st["how"].as_str().unwrap();
        let mut again = st.clone();
        again["srv"] = json!("ok");
        if how == "none" {
            let d = self.dir.clone();
            return json!({"b": [self.once(&d, st, "none", 0)], "kept": 1});
        }
        let keep = st["keep"].as_u64().unwrap() as usize;
        let (mut bs, mut dirs) = (vec![], vec![]);
        for at in 1..400 {
            let d = self.fresh();
            let mut b = if how == "pause" { self.race(&d, st, at) } else { self.once(&d, st, how, at) };
            let hit = b["hit"] == true;
            if how != "pause" {
                b["again"] = if hit { self.once(&d, &again, "none", 0) } else { json!({"hit": false, "out": "none"}) };
            }
            bs.push(b);
            dirs.push(d);
            if !hit {
                break;
            }
        }
        let kept = if keep == 0 { bs.len() } else { (keep - 1) % bs.len() + 1 };
        self.dir = dirs[kept - 1].clone();
        json!({"b": bs, "kept": kept})
    }
    /// the operation waits at a point while another one is carried out
    fn race(&self, dir: &Path, st: &Value, at: usize) -> Value {
        let port = self.serving(st);
        let before = self.server.book.lock().unwrap().count;
        let ra = self.request(dir, st, "outa");
        let rb = self.request(dir, &st["other"], "outb");
        let mut a = start(self.base.path(), dir, &ra, "pause", at, port);
        let t = Instant::now();
        while !a.noted("paused") && !a.ended(Duration::ZERO) && t.elapsed() < Duration::from_secs(20) {
            std::thread::sleep(Duration::from_micros(500));
        }
        let hit = a.noted("paused");
        let sub = self.base.path().join("second");
        std::fs::create_dir_all(&sub).unwrap();
        let mut b = start(&sub, dir, &rb, "none", 0, port);
        b.ended(Duration::from_secs(3));
        let mid = self.seen(dir);
        std::fs::write(a.flag.with_extension("go"), b"").unwrap();
        let (_, outa) = a.end();
        let (_, outb) = b.end();
        let after = self.server.book.lock().unwrap().count;
        json!({"hit": hit, "outa": outa, "outb": outb, "gota": if self.fixups { 0 } else { self.got(st, "outa") },
               "gotb": if self.fixups { 0 } else { self.got(&st["other"], "outb") }, "before": before, "after": after, "mid": mid, "seen": self.seen(dir)})
    }
}

pub fn eval(i: &Value) -> Value {
    let mut lab = Lab::new(i);
    let steps: Vec<Value> = i["steps"].as_array().unwrap().iter().map(|s| lab.step(s)).collect();
    json!({"r": "ok", "v": steps})
}
