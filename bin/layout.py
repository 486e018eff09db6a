"""Lays out .build/hun_law: a copy of /repo's hun_law package that builds offline.

The repository needs the `peginator` crate, which is not available here.  As /opt/vp/scope.py does,
the copy leaves out what depends on it (parser/semantic_info, hun_law_grammar).  Files are real copies,
rewritten only when their text differs, so that cargo rebuilds exactly when something changed."""
import os, re, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
VIEW = os.path.join(BUILD, "hun_law")

def drop_mod(text, names):
    return re.sub(rf"(?m)^\s*(pub(\([^)]*\))?\s+)?mod\s+({'|'.join(names)})\s*;[^\n]*\n?", "", text)

def manifest(text):
    text = re.sub(r"(?ms)^\[workspace\]\n.*?(?=^\[)", "", text)
    text = re.sub(r"(?m)^hun_law_grammar\s*=[^\n]*\n", "", text)
    # only the library is needed: no tests, no dev-dependencies
    text = re.sub(r"(?ms)^\[\[test\]\]\n.*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^\[dev-dependencies\]\n.*?(?=^\[|\Z)", "", text)
    text = text.replace("autotests = false", "autotests = false\nautobins = false\nautoexamples = false\nautobenches = false")
    return text

# what stands for the part that cannot be built: the command line tool calls this. It knows one wording of
# a block amendment, and one it refuses, so that the steps before and after it can be told apart.
STUB = """
impl crate::structure::Act {
    pub fn add_semantic_info(&mut self) -> anyhow::Result<()> {
        struct Stub;
        impl crate::util::walker::SAEVisitorMut for Stub {
            fn on_enter<IT: crate::identifier::IdentifierCommon, CT: crate::structure::ChildrenCommon>(
                &mut self,
                _position: &crate::reference::Reference,
                element: &mut crate::structure::SubArticleElement<IT, CT>,
            ) -> anyhow::Result<()> {
                match &element.body {
                    crate::structure::SAEBody::Text(t) => anyhow::ensure!(!t.contains("szemhiba"), "refused"),
                    crate::structure::SAEBody::Children { intro, .. } => {
                        if let Some((_, rest)) = intro.split_once("a következő ") {
                            if let Some((art, _)) = rest.split_once(". §-sal egészül ki:") {
                                use crate::reference::structural::{StructuralReference, StructuralReferenceElement};
                                use crate::util::compact_string::CompactString;
                                let position = StructuralReference {
                                    act: None,
                                    book: None,
                                    parent: None,
                                    structural_element: StructuralReferenceElement::Article(CompactString::from_compact_string(art)?),
                                    title_only: false,
                                };
                                element.semantic_info.special_phrase =
                                    Some(crate::semantic_info::StructuralBlockAmendment { position, pure_insertion: true }.into());
                            }
                        }
                    }
                }
                Ok(())
            }
        }
        self.walk_saes_mut(&mut Stub)
    }
}
"""

GENERATED = {
    "Cargo.toml": manifest,
    "src/parser/mod.rs": lambda t: drop_mod(t, ["semantic_info"]) + STUB,
}
OMIT = {"src/parser/semantic_info"}

def put(dst, data):
    if os.path.isfile(dst):
        with open(dst, "rb") as f:
            if f.read() == data:
                return
    elif os.path.isdir(dst):
        shutil.rmtree(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "wb") as f:
        f.write(data)

def layout():
    wanted = set()
    def one(rel):
        src = os.path.join(REPO, rel)
        if rel in OMIT:
            return
        if os.path.isdir(src):
            for n in sorted(os.listdir(src)):
                one(os.path.join(rel, n))
            return
        with open(src, "rb") as f:
            data = f.read()
        if rel in GENERATED:
            data = GENERATED[rel](data.decode("utf-8")).encode("utf-8")
        wanted.add(rel)
        put(os.path.join(VIEW, rel), data)
    for top in sorted(os.listdir(REPO)):
        if top in (".git", ".gitignore", "target", "cache", "tests", "hun_law_grammar", "Cargo.lock", "examples", "benches"):
            continue
        one(top)
    for dp, dns, fns in os.walk(VIEW):
        for fn in fns:
            rel = os.path.relpath(os.path.join(dp, fn), VIEW)
            if rel not in wanted and rel != "Cargo.lock":
                os.unlink(os.path.join(dp, fn))
    return VIEW

FULL = os.path.join(BUILD, "full")

def layout_full():
    """.build/full: the package with its semantic parser, whose grammar is compiled by bin/peg.py"""
    import peg
    wanted = set()
    def write(rel, data):
        wanted.add(rel)
        put(os.path.join(FULL, rel), data if isinstance(data, bytes) else data.encode("utf-8"))
    def one(rel):
        src = os.path.join(REPO, rel)
        if os.path.isdir(src):
            for n in sorted(os.listdir(src)):
                one(os.path.join(rel, n))
            return
        with open(src, "rb") as f:
            data = f.read()
        if rel == "Cargo.toml":
            data = manifest(data.decode("utf-8").replace("hun_law_grammar = {", "hun_law_grammar  = {"))
            data = data.replace("[dependencies]", '[dependencies]\nhun_law_grammar = { path = "hun_law_grammar" }')
            data = "[workspace]\n" + data
        write(rel, data)
    for top in sorted(os.listdir(REPO)):
        if top in (".git", ".gitignore", "target", "cache", "tests", "hun_law_grammar", "Cargo.lock", "examples", "benches"):
            continue
        one(top)
    g = os.path.join(REPO, "hun_law_grammar")
    for dp, _, fns in os.walk(os.path.join(g, "src")):
        for fn in fns:
            if fn != "grammar_generated.rs":
                one(os.path.relpath(os.path.join(dp, fn), REPO))
    with open(os.path.join(g, "Cargo.toml"), encoding="utf-8") as f:
        t = f.read()
    t = re.sub(r"(?m)^peginator\s*=[^\n]*", 'peginator = { path = "../peginator" }', t)
    write("hun_law_grammar/Cargo.toml", re.sub(r"(?ms)^\[build-dependencies\]\n.*?(?=^\[|\Z)", "", t))
    with open(os.path.join(g, "grammar.ebnf"), encoding="utf-8") as f:
        write("hun_law_grammar/src/grammar_generated.rs", peg.Gen(f.read()).run("crate::CustomParseState"))
    write("peginator/Cargo.toml", '[package]\nname = "peginator"\nversion = "0.0.0"\nedition = "2021"\n')
    write("peginator/src/lib.rs", peg.RUNTIME)
    for dp, dns, fns in os.walk(FULL):
        for fn in fns:
            rel = os.path.relpath(os.path.join(dp, fn), FULL)
            if rel not in wanted and rel != "Cargo.lock":
                os.unlink(os.path.join(dp, fn))
    return FULL

if __name__ == "__main__":
    layout()
