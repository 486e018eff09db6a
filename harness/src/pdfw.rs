//! Writes a PDF file from an abstract description (see spec/Pdf.tla): fonts, graphics states, forms, pages of operators.
//! Lengths are given in eighths of a point.
use serde_json::Value;

fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("HARNESS: array expected, got {v}"))
}
fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("HARNESS: integer expected, got {v}"))
}
fn eighths(v: &Value) -> String {
    format!("{}", int(v) as f64 / 8.0)
}
fn hex(codes: &Value, wide: bool) -> String {
    let mut s = String::from("<");
    for c in arr(codes) {
        if wide {
            s.push_str(&format!("{:04x}", int(c)));
        } else {
            s.push_str(&format!("{:02x}", int(c)));
        }
    }
    s.push('>');
    s
}
fn utf16(s: &str) -> String {
    s.encode_utf16().map(|u| format!("{u:04x}")).collect()
}

struct Writer {
    objs: Vec<Option<Vec<u8>>>,
}
impl Writer {
    fn alloc(&mut self) -> usize {
        self.objs.push(None);
        self.objs.len()
    }
    fn put(&mut self, text: String) -> usize {
        let n = self.alloc();
        self.objs[n - 1] = Some(text.into_bytes());
        n
    }
    fn stream(&mut self, dict: &str, data: &str) -> usize {
        self.put(format!("<< {dict} /Length {} >>\nstream\n{data}\nendstream", data.len()))
    }
}

fn font(w: &mut Writer, f: &Value) -> usize {
    let cid = f["kind"] == "cid";
    let mut tu = String::new();
    if !arr(&f["tu"]).is_empty() {
        let mut cm = String::from("/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n");
        cm.push_str(&format!("{} beginbfchar\n", arr(&f["tu"]).len()));
        for p in arr(&f["tu"]) {
            let code = if cid { format!("{:04x}", int(&p[0])) } else { format!("{:02x}", int(&p[0])) };
            cm.push_str(&format!("<{code}> <{}>\n", utf16(p[1].as_str().unwrap())));
        }
        cm.push_str("endbfchar\nendcmap\nend\nend\n");
        let n = w.stream("", &cm);
        tu = format!("/ToUnicode {n} 0 R");
    }
    let base = f["base"].as_str().unwrap();
    let widths: Vec<String> = arr(&f["w"]).iter().map(|x| int(x).to_string()).collect();
    let first = int(&f["first"]);
    if cid {
        let desc = w.put(format!(
            "<< /Type /FontDescriptor /FontName /{base} /Flags 4 /FontBBox [0 0 1000 1000] /ItalicAngle 0 /Ascent 800 /Descent -200 /CapHeight 700 /StemV 80 >>"
        ));
        let d = w.put(format!(
            "<< /Type /Font /Subtype /CIDFontType2 /BaseFont /{base} /CIDSystemInfo << /Registry (Adobe) /Ordering (Identity) /Supplement 0 >> /FontDescriptor {desc} 0 R /DW {} /W [{first} [{}]] >>",
            int(&f["dw"]),
            widths.join(" ")
        ));
        return w.put(format!("<< /Type /Font /Subtype /Type0 /BaseFont /{base} /Encoding /Identity-H /DescendantFonts [{d} 0 R] {tu} >>"));
    }
    let basee = match f["enc"].as_str().unwrap() {
        "win" => "/WinAnsiEncoding",
        "std" => "/StandardEncoding",
        "mac" => "/MacRomanEncoding",
        _ => "",
    };
    let mut diff = String::new();
    for d in arr(&f["diff"]) {
        diff.push_str(&format!("{} /{} ", int(&d[0]), d[1].as_str().unwrap()));
    }
    let enc = if diff.is_empty() && !basee.is_empty() {
        basee.to_string()
    } else {
        format!(
            "<< /Type /Encoding {} /Differences [{diff}] >>",
            if basee.is_empty() { String::new() } else { format!("/BaseEncoding {basee}") }
        )
    };
    w.put(format!(
        "<< /Type /Font /Subtype /Type1 /BaseFont /{base} /FirstChar {first} /LastChar {} /Widths [{}] /Encoding {enc} {tu} >>",
        first + widths.len() as i64 - 1,
        widths.join(" ")
    ))
}

fn wide(spec: &Value, cur: &str) -> bool {
    arr(&spec["fonts"]).iter().any(|f| f["n"] == cur && f["kind"] == "cid")
}

/// the operators' text; the current font decides how codes are written, so it is tracked through q/Q
fn ops(spec: &Value, vis: &Value, list: &Value) -> String {
    let mut s = String::new();
    let mut font = String::new();
    let mut stack = vec![];
    // resource name to font name
    let named = |name: &str| -> String {
        arr(vis).iter().rev().find(|p| p[0] == name).map_or(String::new(), |p| p[1].as_str().unwrap().to_string())
    };
    for op in arr(list) {
        let k = op[0].as_str().unwrap();
        match k {
            "q" => stack.push(font.clone()),
            "Q" => font = stack.pop().unwrap_or_default(),
            "Tf" => font = named(op[1].as_str().unwrap()),
            "gs" => {
                if let Some(g) = arr(&spec["gs"]).iter().find(|g| g["n"] == op[1]) {
                    if g["f"] != "" {
                        font = g["f"].as_str().unwrap().to_string();
                    }
                }
            }
            _ => (),
        }
        let line = match k {
            "q" | "Q" | "BT" | "ET" | "T*" | "EMC" => k.to_string(),
            "Tf" => format!("/{} {} Tf", op[1].as_str().unwrap(), int(&op[2])),
            "gs" | "Do" => format!("/{} {k}", op[1].as_str().unwrap()),
            "Tc" | "Tw" | "TL" | "Ts" => format!("{} {k}", eighths(&op[1])),
            "Tz" => format!("{} Tz", int(&op[1])),
            "Td" | "TD" => format!("{} {} {k}", eighths(&op[1]), eighths(&op[2])),
            "Tm" => format!(
                "{} {} {} {} {} {} Tm",
                int(&op[1]), int(&op[2]), int(&op[3]), int(&op[4]), eighths(&op[5]), eighths(&op[6])
            ),
            "Tj" | "'" => format!("{} {k}", hex(&op[1], wide(spec, &font))),
            "\"" => format!("{} {} {} \"", eighths(&op[1]), eighths(&op[2]), hex(&op[3], wide(spec, &font))),
            "TJ" => {
                let items: Vec<String> = arr(&op[1])
                    .iter()
                    .map(|i| if i.is_array() && i.get(0) == Some(&Value::from("s")) { hex(&i[1], wide(spec, &font)) } else { int(&i[1]).to_string() })
                    .collect();
                format!("[{}] TJ", items.join(" "))
            }
            "BMC" => format!("/{} BMC", op[1].as_str().unwrap()),
            "BDC" => format!("/{} << /MCID 1 >> BDC", op[1].as_str().unwrap()),
            "ACT" => format!("/Span << /ActualText <feff{}> >> BDC", utf16(op[1].as_str().unwrap())),
            "ACTP" => format!("/P << /ActualText <feff{}> >> BDC", utf16(op[1].as_str().unwrap())),
            "cm" => format!("{} {} {} {} {} {} cm", int(&op[1]), int(&op[2]), int(&op[3]), int(&op[4]), eighths(&op[5]), eighths(&op[6])),
            "re" => "10 10 20 20 re f".to_string(),
            _ => panic!("HARNESS: operator {k}"),
        };
        s.push_str(&line);
        s.push('\n');
    }
    s
}

pub fn write(spec: &Value) -> Vec<u8> {
    let mut w = Writer { objs: vec![] };
    let catalog = w.alloc();
    let pages = w.alloc();
    let fonts: Vec<(String, usize)> =
        arr(&spec["fonts"]).iter().map(|f| (f["n"].as_str().unwrap().to_string(), font(&mut w, f))).collect();
    // what a page or form may use; "vis" says which fonts and under which names: [[resource name, font name]]
    let fontdict = |vis: &Value| -> String {
        arr(vis)
            .iter()
            .map(|p| {
                let n = fonts.iter().find(|f| f.0 == p[1].as_str().unwrap()).expect("HARNESS: font").1;
                format!("/{} {n} 0 R ", p[0].as_str().unwrap())
            })
            .collect()
    };
    let gsdict: String = arr(&spec["gs"])
        .iter()
        .map(|g| {
            let f = g["f"].as_str().unwrap();
            if f.is_empty() {
                format!("/{} << /Type /ExtGState /LW 1 >> ", g["n"].as_str().unwrap())
            } else {
                let n = fonts.iter().find(|x| x.0 == f).expect("HARNESS: font").1;
                format!("/{} << /Type /ExtGState /Font [{n} 0 R {}] >> ", g["n"].as_str().unwrap(), int(&g["s"]))
            }
        })
        .collect();
    let forms: Vec<(String, usize)> = arr(&spec["forms"]).iter().map(|f| (f["n"].as_str().unwrap().to_string(), w.alloc())).collect();
    let xdict: String = forms.iter().map(|(n, o)| format!("/{n} {o} 0 R ")).collect();
    let resources = |vis: &Value| format!("<< /Font << {} >> /ExtGState << {gsdict} >> /XObject << {xdict} >> >>", fontdict(vis));
    for (f, (_, o)) in arr(&spec["forms"]).iter().zip(&forms) {
        let data = ops(spec, &f["vis"], &f["ops"]);
        let res = if f["own"] == true { format!("/Resources {}", resources(&f["vis"])) } else { String::new() };
        let text = format!(
            "<< /Type /XObject /Subtype /Form /BBox [0 0 1000 1000] {res} /Length {} >>\nstream\n{data}\nendstream",
            data.len()
        );
        w.objs[o - 1] = Some(text.into_bytes());
    }
    let mut kids = vec![];
    for p in arr(&spec["pages"]) {
        // a page without operators has no contents at all; one marked so has them in two pieces
        let mut c = String::new();
        let data = ops(spec, &p["vis"], &p["ops"]);
        let cut = if p["split"] == true { data.bytes().take(data.len() / 2).rposition(|b| b == b'\n').unwrap_or(0) } else { 0 };
        for piece in [&data[..cut], &data[cut..]] {
            if !piece.is_empty() && arr(&p["ops"]).len() > 0 {
                c += &format!("{} 0 R ", w.stream("", piece));
            }
        }
        let c = if cut > 0 { format!("/Contents [{c}]") } else if c.is_empty() { c } else { format!("/Contents {c}") };
        kids.push(w.put(format!("<< /Type /Page /Parent {pages} 0 R /MediaBox [0 0 595 842] /Resources {} {c} >>", resources(&p["vis"]))));
    }
    let kl: String = kids.iter().map(|k| format!("{k} 0 R ")).collect();
    w.objs[pages - 1] = Some(format!("<< /Type /Pages /Kids [{kl}] /Count {} >>", kids.len()).into_bytes());
    w.objs[catalog - 1] = Some(format!("<< /Type /Catalog /Pages {pages} 0 R >>").into_bytes());
    let mut out = b"%PDF-1.4\n".to_vec();
    let mut offs = vec![];
    for (n, o) in w.objs.iter().enumerate() {
        offs.push(out.len());
        out.extend(format!("{} 0 obj\n", n + 1).into_bytes());
        out.extend(o.as_ref().expect("HARNESS: object"));
        out.extend(b"\nendobj\n");
    }
    let xref = out.len();
    out.extend(format!("xref\n0 {}\n0000000000 65535 f \n", offs.len() + 1).into_bytes());
    for o in &offs {
        out.extend(format!("{o:010} 00000 n \n").into_bytes());
    }
    out.extend(format!("trailer\n<< /Size {} /Root {catalog} 0 R >>\nstartxref\n{xref}\n%%EOF\n", offs.len() + 1).into_bytes());
    out
}
