"""A stand-in for peginator_codegen: turns hun_law_grammar/grammar.ebnf into grammar_generated.rs.

The crate that the repository uses for this is not available offline.  What the notation means is taken from its
documentation: ordered choice, greedy repetition, white space skipped before every terminal and rule call unless the
rule says @no_skip_ws, one struct per rule with the fields named in it (one, optional or many, as they occur), enums
for fields of several types, @: for the rule's own value, @string/@char/@position/@memoize/@check/@extern.
The repository's own datatests for the semantic parser pass on the result (DESIGN.md)."""
import re, sys

TOKEN = re.compile(r"""\s+|\#[^\n]*|(?P<dir>@(?:export|string|char|no_skip_ws|position|memoize|check\([^)]*\)|extern\([^)]*\))(?![A-Za-z_:]))
    |(?P<lit>"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*')|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<op>\.\.|\}\+|[=|;{}\[\]()&!>:@$])""", re.X)

def tokens(text):
    out, p = [], 0
    while p < len(text):
        m = TOKEN.match(text, p)
        if not m:
            raise ValueError(f"grammar: cannot read {text[p:p + 30]!r}")
        p = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group(m.lastgroup)))
    return out + [("end", "")]

class Parser:
    def __init__(self, text):
        self.t, self.p = tokens(text), 0
    def peek(self, k=0):
        return self.t[min(self.p + k, len(self.t) - 1)]
    def next(self):
        self.p += 1
        return self.t[self.p - 1]
    def eat(self, v):
        if self.peek()[0] in ("op",) and self.peek()[1] == v:
            self.p += 1
            return True
        return False
    def need(self, v):
        if not self.eat(v):
            raise ValueError(f"grammar: {v!r} expected at {self.t[self.p:self.p + 5]}")
    def rules(self):
        out = {}
        while self.peek()[0] != "end":
            dirs = []
            while self.peek()[0] == "dir":
                dirs.append(self.next()[1])
            kind, name = self.next()
            if kind != "id":
                raise ValueError(f"grammar: rule name expected, not {name!r}")
            body = None
            if self.eat("="):
                body = self.choice()
            self.need(";")
            out[name] = Rule(name, dirs, body)
        return out
    def choice(self):
        alts = [self.seq()]
        while self.eat("|"):
            alts.append(self.seq())
        return ("choice", alts) if len(alts) > 1 else alts[0]
    def seq(self):
        items = []
        while not (self.peek()[0] == "end" or self.peek() in [("op", x) for x in "|;)]}"] or self.peek() == ("op", "}+")):
            items.append(self.item())
        return ("seq", items)
    def item(self):
        kind, v = self.next()
        if kind == "lit":
            s = lit(v)
            if self.eat(".."):
                return ("range", s, lit(self.next()[1]))
            return ("lit", s)
        if kind == "id":
            if self.eat(":"):
                return ("field", v, self.next()[1])
            return ("call", v)
        if v == "@":
            self.need(":")
            return ("field", "@", self.next()[1])
        if v == ">":
            return ("include", self.next()[1])
        if v == "$":
            return ("eoi",)
        if v in "&!":
            return ("pos" if v == "&" else "neg", self.item())
        if v == "(":
            e = self.choice()
            self.need(")")
            return e
        if v == "[":
            e = self.choice()
            self.need("]")
            return ("opt", e)
        if v == "{":
            e = self.choice()
            if self.eat("}+"):
                return ("many", e, 1)
            self.need("}")
            return ("many", e, 0)
        raise ValueError(f"grammar: unexpected {v!r}")

def lit(v):
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "r": "\r", "t": "\t"}.get(m.group(1), m.group(1)), v[1:-1])

class Rule:
    def __init__(self, name, dirs, body):
        self.name, self.body = name, body
        self.flags = {d[1:].split("(")[0] for d in dirs}
        self.arg = {d[1:].split("(")[0]: d[d.index("(") + 1:-1] for d in dirs if "(" in d}

# how often a field occurs: one < opt < many
def either(a, b):
    out = {}
    for k in list(a) + [k for k in b if k not in a]:
        ca, cb = a.get(k), b.get(k)
        if ca and cb:
            out[k] = ("many" if "many" in (ca[0], cb[0]) else "opt" if "opt" in (ca[0], cb[0]) else "one", ca[1] + [t for t in cb[1] if t not in ca[1]])
        else:
            c = ca or cb
            out[k] = ("many" if c[0] == "many" else "opt", c[1])
    return out

def both(a, b):
    out = dict(a)
    for k, c in b.items():
        out[k] = ("many", out[k][1] + [t for t in c[1] if t not in out[k][1]]) if k in out else c
    return out

class Gen:
    def __init__(self, text):
        self.rules = Parser(text).rules()
        self.out, self.n = [], 0

    def expand(self, e):
        k = e[0]
        if k == "include":
            return self.expand(self.rules[e[1]].body)
        if k in ("seq", "choice"):
            return (k, [self.expand(x) for x in e[1]])
        if k in ("opt", "many", "pos", "neg"):
            return (k, self.expand(e[1])) + tuple(e[2:])
        return e

    def fields(self, e):
        k = e[0]
        if k == "field":
            return {e[1]: ("one", [e[2]])}
        if k == "seq":
            f = {}
            for x in e[1]:
                f = both(f, self.fields(x))
            return f
        if k == "choice":
            f = self.fields(e[1][0])
            for x in e[1][1:]:
                f = either(f, self.fields(x))
            return f
        if k == "opt":
            return either(self.fields(e[1]), {})
        if k == "many":
            return {n: ("many", c[1]) for n, c in self.fields(e[1]).items()}
        return {}

    def emit(self, s):
        self.out.append(s)

    def expr(self, e, rule, f, skip):
        """writes the function of one expression and gives its name"""
        self.n += 1
        me = f"e{self.n}"
        k = e[0]
        ws = "let p = ws(s, p);" if skip else ""
        if k == "lit":
            body = f"{ws} s[p..].starts_with({q(e[1])}).then_some(p + {len(e[1].encode())})"
        elif k == "range":
            body = f"{ws} let c = s[p..].chars().next()?; ({q(e[1])}.chars().next()? <= c && c <= {q(e[2])}.chars().next()?).then_some(p + c.len_utf8())"
        elif k == "eoi":
            body = f"{ws} (p == s.len()).then_some(p)"
        elif k == "call":
            body = f"{ws} p_{e[1]}(s, p, g).map(|x| x.0)"
        elif k == "field":
            n, t = e[1], e[2]
            types = f[n][1]
            v = "v" if len(types) == 1 else f"{self.enum(rule, n)}::{t}(v)"
            body = f"{ws} let (p, v) = p_{t}(s, p, g)?; f.{field(n)}.push({v}); Some(p)"
        elif k == "seq":
            subs = [self.expr(x, rule, f, skip) for x in e[1]]
            body = " ".join(f"let p = {x}(s, p, g, f)?;" for x in subs) + " Some(p)"
        elif k == "choice":
            subs = [self.expr(x, rule, f, skip) for x in e[1]]
            body = "let m = f.mark(); " + " ".join(f"if let Some(p) = {x}(s, p, g, f) {{ return Some(p); }} f.reset(&m);" for x in subs) + " None"
        elif k == "opt":
            x = self.expr(e[1], rule, f, skip)
            body = f"let m = f.mark(); if let Some(p) = {x}(s, p, g, f) {{ return Some(p); }} f.reset(&m); Some(p)"
        elif k == "many":
            x = self.expr(e[1], rule, f, skip)
            body = (f"let mut p = p; let mut n = 0; loop {{ let m = f.mark(); match {x}(s, p, g, f) {{ Some(q) => {{ n += 1; if q == p {{ break; }} p = q; }}, "
                    f"None => {{ f.reset(&m); break; }} }} }} (n >= {e[2]}).then_some(p)")
        elif k in ("pos", "neg"):
            x = self.expr(e[1], rule, f, skip)
            body = f"let m = f.mark(); let r = {x}(s, p, g, f).is_some(); f.reset(&m); (r == {'true' if k == 'pos' else 'false'}).then_some(p)"
        self.emit(f"fn {me}(s: &str, p: usize, g: &mut G, f: &mut F_{rule}) -> Option<usize> {{ {body} }}")
        return me

    def enum(self, rule, n):
        return rule if n == "@" else f"{rule}_{n}"

    def chars(self, e):
        """the condition on c of a @char rule"""
        k = e[0]
        if k == "choice":
            return " || ".join(f"({self.chars(x)})" for x in e[1])
        if k == "seq" and len(e[1]) == 1:
            return self.chars(e[1][0])
        if k == "lit":
            return f"c == {q(e[1])}.chars().next().unwrap()"
        if k == "range":
            return f"{q(e[1])}.chars().next().unwrap() <= c && c <= {q(e[2])}.chars().next().unwrap()"
        if k == "call":
            return self.chars(self.rules[e[1]].body)
        raise ValueError(f"grammar: {e} in a @char rule")

    def rule(self, r):
        n = r.name
        if "extern" in r.flags:
            self.emit(f"pub type {n} = String;")
            self.emit(f"fn p_{n}(s: &str, p: usize, g: &mut G) -> Option<(usize, String)> {{ {r.arg['extern']}(&s[p..], g.ctx).ok().map(|(v, l)| (p + l, v)) }}")
            return
        if "char" in r.flags:
            self.emit(f"pub type {n} = char;")
            self.emit(f"fn p_{n}(s: &str, p: usize, _g: &mut G) -> Option<(usize, char)> {{ let c = s[p..].chars().next()?; ({self.chars(r.body)}).then_some((p + c.len_utf8(), c)) }}")
            return
        body = self.expand(r.body)
        f = {} if "string" in r.flags else self.fields(body)
        types = {x: ts[0] if len(ts) == 1 else self.enum(n, x) for x, (_, ts) in f.items()}
        if "string" in r.flags:
            def plain(e):
                if e[0] == "field":
                    return ("call", e[2])
                if e[0] in ("seq", "choice"):
                    return (e[0], [plain(x) for x in e[1]])
                if e[0] in ("opt", "many", "pos", "neg"):
                    return (e[0], plain(e[1])) + tuple(e[2:])
                return e
            body = plain(body)
        # accumulators
        self.emit(f"#[derive(Default)] struct F_{n} {{ {' '.join(f'{field(x)}: Vec<{t}>,' for x, t in types.items())} }}")
        self.emit(f"impl F_{n} {{ fn mark(&self) -> [usize; {len(f)}] {{ [{', '.join(f'self.{field(x)}.len()' for x in types)}] }} "
                  f"fn reset(&mut self, _m: &[usize; {len(f)}]) {{ {' '.join(f'self.{field(x)}.truncate(_m[{i}]);' for i, x in enumerate(types))} }} }}")
        derive = "#[derive(Debug, Clone, Drive)]"
        for x, (_, ts) in f.items():
            if len(ts) > 1:
                self.emit(f"{derive} pub enum {self.enum(n, x)} {{ {' '.join(f'{t}({t}),' for t in ts)} }}")
        wrap = {"one": "{}", "opt": "Option<{}>", "many": "Vec<{}>"}
        take = {"one": "f.{}.pop()?", "opt": "f.{}.pop()", "many": "f.{}"}
        value_type = n
        if "string" in r.flags:
            self.emit(f"pub type {n} = String;")
            make = "s[p..q].to_string()"
        elif "@" in f:
            if set(f) != {"@"} or "position" in r.flags:
                raise ValueError(f"grammar: @: among other fields in {n}")
            t = wrap[f["@"][0]].format(types["@"])
            if t != n:
                if len(f["@"][1]) > 1:
                    value_type = t
                else:
                    self.emit(f"pub type {n} = {t};")
            make = take[f["@"][0]].format(field("@"))
        else:
            fs = [f"pub {x}: {wrap[f[x][0]].format(types[x])}," for x in f]
            vs = [f"{x}: {take[f[x][0]].format(field(x))}," for x in f]
            if "position" in r.flags:
                fs.append("pub position: std::ops::Range<usize>,")
                vs.append("position: p..q,")
            self.emit(f"{derive} pub struct {n} {{ {' '.join(fs)} }}" if fs else f"{derive} pub struct {n};")
            make = f"{n} {{ {' '.join(vs)} }}" if fs else n
        top = self.expr(body, n, f, "no_skip_ws" not in r.flags)
        check = f"if !{r.arg['check']}(&v, g.ctx) {{ return None; }}" if "check" in r.flags else ""
        core = f"let mut f = F_{n}::default(); let q = {top}(s, p, g, &mut f)?; let v = {make}; {check} Some((q, v))"
        if "memoize" in r.flags:
            self.memo.append((n, value_type))
            core = f"if let Some(r) = g.m_{n}.get(&p) {{ return r.clone(); }} let r = (|| {{ {core} }})(); g.m_{n}.insert(p, r.clone()); r"
        self.emit(f"#[allow(unused_mut)] fn p_{n}(s: &str, p: usize, g: &mut G) -> Option<(usize, {value_type})> {{ {core} }}")
        if "export" in r.flags:
            self.emit(f"impl peginator::PegParserAdvanced<&mut C> for {n} {{ fn parse_advanced<T>(s: &str, _settings: &peginator::ParseSettings, ctx: &mut C) "
                      f"-> Result<Self, peginator::ParseError> {{ let mut g = G::new(ctx); p_{n}(s, ws0(s), &mut g).map(|x| x.1).ok_or_else(|| peginator::ParseError::new(s)) }} }}")

    def run(self, ctx):
        self.memo = []
        for r in self.rules.values():
            self.rule(r)
        head = ["// written by /verif/bin/peg.py", "#![allow(non_camel_case_types, non_snake_case, dead_code, unused_variables, unused_parens)]", "use derive_visitor::{Drive, Visitor};",
                f"type C = {ctx};", "struct G<'a> { ctx: &'a mut C, " + "".join(f"m_{n}: std::collections::HashMap<usize, Option<(usize, {t})>>, " for n, t in self.memo) + "}",
                "impl<'a> G<'a> { fn new(ctx: &'a mut C) -> Self { G { ctx, " + "".join(f"m_{n}: Default::default(), " for n, _ in self.memo) + "} } }",
                "fn ws(s: &str, p: usize) -> usize { p + s[p..].bytes().take_while(|b| b.is_ascii_whitespace()).count() }",
                "fn ws0(_s: &str) -> usize { 0 }",
                "fn p_char(s: &str, p: usize, _g: &mut G) -> Option<(usize, char)> { let c = s[p..].chars().next()?; Some((p + c.len_utf8(), c)) }",
                "fn p_Whitespace(s: &str, p: usize, _g: &mut G) -> Option<(usize, ())> { Some((ws(s, p), ())) }"]
        return "\n".join(head + self.out) + "\n"

def q(s):
    return '"' + "".join({"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t", "\r": "\\r"}.get(c, c) for c in s) + '"'

def field(n):
    return "f_override" if n == "@" else "f_" + n

RUNTIME = """//! what hun_law_grammar uses of the peginator crate
#[derive(Debug, Default, Clone)]
pub struct ParseSettings;
#[derive(Debug, Clone)]
pub struct NoopTracer;
#[derive(Debug, Clone)]
pub struct ParseError {
    text: String,
}
impl ParseError {
    pub fn new(s: &str) -> Self {
        Self { text: s.to_string() }
    }
}
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "could not parse '{}'", self.text)
    }
}
impl std::error::Error for ParseError {}
pub trait PegParserAdvanced<C>: Sized {
    fn parse_advanced<T>(s: &str, settings: &ParseSettings, ctx: C) -> Result<Self, ParseError>;
}
"""

if __name__ == "__main__":
    sys.stdout.write(Gen(open(sys.argv[1], encoding="utf-8").read()).run("crate::CustomParseState"))
