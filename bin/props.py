"""One function per property: which models are explored, which inputs are generated, what is compared."""
import vlib
from vlib import Check
import gen_ident, gen_ref, gen_line, gen_struct, gen_draft, gen_amend, gen_mk, gen_pdf, gen_fixup, gen_session, gen_store, gen_doc, gen_runs, gen_sem

CHECKS = {}

def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco

# --------------------------------------------------------------------------------------------- identifiers

def mc_ident(t, invs="Increasing OneFirst Emit LawsHold", **over):
    c = dict(Nums="{0, 1, 2, 3, 10, 65535}", Books="{1}", Sufs="<- SufsFew", Pres="<- PresFew")
    c.update(over)
    lines = [f"INIT Init\nNEXT Next\nINVARIANTS {invs}\nCHECK_DEADLOCK FALSE\nCONSTANTS T = \"{t}\""]
    for k, v in c.items():
        lines.append(f"  {k} {v}" if v.startswith("<-") else f"  {k} = {v}")
    return "\n".join(lines) + "\n"

@check("C01")
def c01(pid):
    c = Check(pid)
    full = "Increasing OneFirst Trans Emit LawsHold"
    c.mc_all([(m, cfg, label, "ident") for m, cfg, label in [
        ("MC_Ident", mc_ident("letter", full), "MC_Ident/letter"),
        ("MC_Ident", mc_ident("num", Sufs="<- SufsAll", Nums=c.n("{0, 1, 2, 9, 65535}", "{0, 1, 2, 3, 9, 10, 11, 99, 100, 101, 65534, 65535}")), "MC_Ident/num"),
        ("MC_Ident", mc_ident("para", full), "MC_Ident/para"),
        ("MC_Ident", mc_ident("art", Books="<- BooksAll", Nums=c.n("{1, 2, 3}", "{0, 1, 2, 3, 10, 65535}"), Sufs=c.n("<- SufsTiny", "<- SufsFew")), "MC_Ident/art"),
        ("MC_Ident", mc_ident("pre", Pres=c.n("<- PresFew", "<- PresAll")), "MC_Ident/pre"),
        ("MC_Ident", mc_ident("act", full, Books="{1989, 2011, 2012}", Nums="{1, 2, 9, 10, 100, 3999}"), "MC_Ident/act")]])
    c.evaluate("Eval_Ident", "ident", gen_ident.order_cases(c.rng, c.n(1500, 20000)))
    return c.finish("every identifier of a finite universe against every other (all 34 letters and their pairs completely), plus "
                    "random rows over the whole value range; a case is non-trivial when the identifiers parse")

@check("C02")
def c02(pid):
    c = Check(pid)
    def cfg(alpha, n):
        return f"INIT Init\nNEXT Next\nINVARIANTS RoundTrip Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Alphabet <- {alpha}\n  MaxLen = {n}\n"
    c.mc_all([("MC_Notation", cfg("AlphaDec", c.n(4, 5)), "MC_Notation/decimal", "ident"),
              ("MC_Notation", cfg("AlphaRom", c.n(4, 6)), "MC_Notation/roman", "ident")])
    c.evaluate("Eval_Ident", "ident", gen_ident.notation_cases(c.rng, c.n(2500, 40000), c.thorough))
    return c.finish("all strings up to a length over two alphabets typed character by character, all roman numerals and Hungarian "
                    "ordinals, and random well-formed and damaged notations; non-trivial when the notation is accepted")

# --------------------------------------------------------------------------------------------- references

def hist_cfg(vocab, n):
    return f"INIT Init\nNEXT Next\nVIEW View\nINVARIANTS WellFormed\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Vocab <- {vocab}\n  MaxLen = {n}\n"

@check("C03")
def c03(pid):
    c = Check(pid)
    c.mc_all([("MC_RefHist", hist_cfg("VocabBuild", c.n(4, 6)), "MC_RefHist/builder", "refs"),
              ("MC_RefHist", hist_cfg("VocabAlgebra", c.n(4, 5)), "MC_RefHist/algebra", "refs")])
    c.evaluate("Eval_Ref", "refs", gen_ref.progs(c.rng, c.n(4000, 40000)))
    return c.finish("construction histories: all programs up to a bound over two vocabularies (one witness per transition between "
                    "register states) and random longer ones; every intermediate reference is compared")

def ref_order(i, o):
    return o

@check("C04")
def c04(pid):
    c = Check(pid)
    q = "Q" if not c.thorough else "T"
    cfg = ("INIT Init\nNEXT Next\nINVARIANTS LawsHold Emit" + ("") + "\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" +
           "".join(f"  {k} <- {k}{q}\n" for k in ("Acts", "Arts", "Paras", "Pts", "Subs")))
    c.mc("MC_RefPairs", cfg, "MC_RefPairs", "refs", heap="10g")
    if c.thorough:
        c.mc("MC_RefPairs", cfg.replace("T\n", "Q\n").replace("Emit", "CoversTrans"), "MC_RefPairs/transitivity", replay=False)
    c.evaluate("Eval_Ref", "refs", gen_ref.pair_cases(c.rng, c.n(2000, 20000)))
    return c.finish("every ordered pair of a finite universe of references, and random references against their kin (ancestors, "
                    "descendants, siblings, overlapping ranges)")

@check("C05")
def c05(pid):
    c = Check(pid)
    cfg = "INIT Init\nNEXT Next\nINVARIANTS LawsHold Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Mode = \"%s\" Symbols <- %s MaxLen = %d\n"
    c.mc_all([("MC_RefNotation", cfg % ("fields", "SymsFew", 5), "MC_RefNotation/fields", "refs"),
              ("MC_RefNotation", cfg % ("typed", "SymsFew", c.n(5, 7)), "MC_RefNotation/typed", "refs"),
              ("MC_RefNotation", cfg % ("typed", "SymsMore", c.n(4, 6)), "MC_RefNotation/more", "refs")])
    c.evaluate("Eval_Ref", "refs", gen_ref.notation_cases(c.rng, c.n(6000, 60000)))
    return c.finish("every combination of a few parts for the five levels, every string of a few symbols, and random well-formed and damaged reference notations, through the compact form and through JSON and YAML")

# --------------------------------------------------------------------------------------------- lines

@check("C06")
def c06(pid):
    c = Check(pid)
    cfg = f"INIT Init\nNEXT Next\nVIEW View\nINVARIANTS LawsHold\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps = {c.n(1, 2)}\n"
    c.mc("MC_Line", cfg, "MC_Line", "lines")
    c.evaluate("Eval_Line", "lines", gen_line.lprogs(c.rng, c.n(4000, 40000)))
    return c.finish("all cut/join programs up to a bound over four starting lines, and random programs over random lines with "
                    "multi-byte characters, mixed bold and arbitrary spacing; every register is observed completely")

@check("C07")
def c07(pid):
    c = Check(pid)
    cfg = "INIT Init\nNEXT Next\nINVARIANTS LawsHold Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Frags <- %s MaxLen = %d\n"
    c.mc_all([("MC_Join", cfg % ("FragsWords", c.n(5, 7)), "MC_Join/words", "lines"), ("MC_Join", cfg % ("FragsFew", c.n(6, 8)), "MC_Join/few", "lines")])
    c.evaluate("Eval_Line", "lines", gen_line.joins(c.rng, c.n(6000, 60000)))
    c.evaluate("Eval_Struct", "struct", gen_struct.bodies(c.rng, c.n(1000, 10000), hyphens=True))
    c.drafts("Eval_Draft", "struct", gen_draft.drafts(c.rng, c.n(300, 3000)), DRAFT)
    return c.finish("all passages of a few fragments over lines, random sequences of line texts built from hyphens, connecting words and ordinary words, and the texts of parsed act bodies rich in hyphens")

# --------------------------------------------------------------------------------------------- structure

def struct_cfg(start, vocab, n):
    return (f"INIT Init\nNEXT Next\nINVARIANTS LawsHold Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n  Start <- {start}\n"
            f"  Vocab <- {vocab}\n  MaxLen = {n}\n")

def struct_mc(*which):
    return [("MC_Struct", struct_cfg(s, v, n), f"MC_Struct/{v}", "struct") for s, v, n in which]

BODY_RULE = ("; the parsed tree, or the refusal, is compared completely with the specification's; a case is non-trivial when the "
             "body is accepted")

DRAFT = lambda i, e: ({"ls": e["ls"]}, {"r": "ok", "v": i["act"]})

@check("C08")
def c08(pid):
    c = Check(pid)
    c.mc_all(struct_mc(("StartNone", "VocabMix", c.n(3, 4)), ("StartArt", "VocabMix", c.n(3, 4))))
    c.evaluate("Eval_Struct", "struct", gen_struct.bodies(c.rng, c.n(3500, 40000)))
    c.drafts("Eval_Draft", "struct", gen_draft.drafts(c.rng, c.n(500, 5000)), DRAFT)
    c.evaluate("Eval_Amend", "amend", gen_amend.amends(c.rng, c.n(400, 4000)))
    return c.finish("drafted, damaged and random act bodies; conservation of the text is a checked law of the specification" + BODY_RULE)

@check("C09")
def c09(pid):
    c = Check(pid)
    c.mc_all(struct_mc(("StartArt", "VocabPoints", c.n(3, 4)), ("StartArt", "VocabNum", c.n(3, 4)), ("StartPara", "VocabParas", c.n(3, 4)),
             ("StartNone", "VocabHeads", c.n(3, 4))))
    c.evaluate("Eval_Struct", "struct", gen_struct.near_heads() + gen_struct.bodies(c.rng, c.n(2000, 20000), quote=0.03, points=0.8))
    c.drafts("Eval_Draft", "struct", gen_draft.drafts(c.rng, c.n(500, 5000), 4), DRAFT)
    return c.finish("all bodies up to a length over four vocabularies (headings, paragraphs, alphabetic and numeric points) and drafted, "
                    "damaged and random bodies rich in points" + BODY_RULE)

@check("C10")
def c10(pid):
    c = Check(pid)
    c.mc_all(struct_mc(("StartArt", "VocabQuote", c.n(3, 4)), ("StartArt", "VocabQStruct", c.n(3, 4))))
    c.evaluate("Eval_Struct", "struct", gen_struct.bodies(c.rng, c.n(2000, 20000), quote=0.7, points=0.2))
    c.evaluate("Eval_Line", "lines", gen_line.quotes(c.rng, c.n(1500, 15000)))
    c.evaluate("Eval_Amend", "amend", gen_amend.amends(c.rng, c.n(400, 4000)))
    return c.finish("all bodies up to a length over two vocabularies of quoted and unquoted headings, random quote-rich bodies, and random "
                    "sequences of quote marks through the quote counter itself" + BODY_RULE)

@check("C11")
def c11(pid):
    c = Check(pid)
    c.drafts("Eval_Draft", "struct", gen_draft.drafts(c.rng, c.n(1800, 20000)),
             DRAFT)
    return c.finish("random well-formed act trees, laid out into lines by the specification with random indents and line breaks; the real "
                    "parser must give back the very tree that was drafted")

@check("C12")
def c12(pid):
    c = Check(pid)
    c.mc_all(struct_mc(("StartArt", "VocabBlocks", c.n(4, 5))))
    c.evaluate("Eval_Struct", "struct", gen_struct.bodies(c.rng, c.n(2500, 25000), quote=0.95, points=0.0))
    return c.finish("all bodies up to a length over a vocabulary of block openings, brackets and closings, and random bodies made of quoted "
                    "blocks" + BODY_RULE)

# --------------------------------------------------------------------------------------------- corrections

@check("C15")
def c15(pid):
    c = Check(pid)
    cfg = "INIT Init\nNEXT Next\nINVARIANTS Emit LawsHold\nCONSTRAINT Alive\nCHECK_DEADLOCK FALSE\nCONSTANTS Texts <- %s Page <- %s MaxFixes = %d\n"
    c.mc_all([("MC_Fixup", cfg % a, f"MC_Fixup/{a[1]}", "fixup") for a in [("TextsOne", "PageNone", 1), ("TextsFew", "PageAlike", c.n(2, 3))]])
    c.evaluate("Eval_Fixup", "fixup", gen_fixup.pages(c.rng, c.n(6000, 60000)) + gen_fixup.pages(c.rng, c.n(1500, 15000), odd=True))
    return c.finish("all corrections between 18 short texts and all sequences of corrections over a page of alike lines; random pages with sequences of corrections, "
                    "part of them also saved, loaded and applied as a list")

@check("C16")
def c16(pid):
    c = Check(pid)
    c.cli_env()
    cfg = "INIT Init\nNEXT Next\nINVARIANTS Emit LawsHold Faithful\nPROPERTY OnlyMore\nCHECK_DEADLOCK FALSE\nCONSTANTS Raw <- %s News <- %s MaxSessions = %d\n"
    c.mc_all([("MC_Session", cfg % a, f"MC_Session/{a[0]}", "session") for a in [("RawGaps", c.n("NewsFew", "NewsAll"), 2), ("RawAlike", "NewsBold", c.n(2, 3))]])
    c.evaluate("Eval_Session", "session", gen_session.histories(c.rng, c.n(320, 6000)))
    return c.finish("all histories of two or three sessions changing one line each of two texts of alike lines, and random histories of up to four sessions over two "
                    "acts, run with the command line tool and a scripted editor")

STORE = ("INIT Init\nNEXT Next\nINVARIANTS Sent OneAnswer Emit\nPROPERTIES Grows Apart\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
         "  Kind = \"%s\"\n  Hows = %s\n  Srvs = %s\n  Keeps = %s\n  MaxLen = %d\n")

@check("C17")
def c17(pid):
    c = Check(pid)
    c.shim_env()
    dur = "INIT Init\nNEXT Next\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\nCONSTANTS Way = \"%s\" Pieces = 3\n"
    c.mc("MC_Durable", dur % ("Whole Kept NoneFails", "own"), "MC_Durable/own", replay=False)
    c.mc_refutes("MC_Durable", dur % ("Whole", "place"), "MC_Durable/place", "Whole")
    c.mc_refutes("MC_Durable", dur % ("Whole", "shared"), "MC_Durable/shared", "Whole")
    hows = '{"crash", "partial", "fail", "fail1", "fail2", "full", "pause"}'
    HOWS = ["none", "crash", "partial", "fail", "fail1", "fail2", "full", "pause"]
    c.mc_judge("MC_Store", STORE % ("fixups", hows, "{\"ok\"}", c.n("{0, 3}", "0..7"), c.n(2, 2)), "MC_Store/fixups", "Eval_Store", "store")
    c.mc_judge("MC_Store", STORE % ("cache", hows, c.n('{"ok"}', '{"ok", "chunked"}'), c.n("{0, 3}", "0..7"), c.n(2, 2)), "MC_Store/cache", "Eval_Store", "store")
    c.judge("Eval_Store", "store", gen_store.saves(c.rng, c.n(120, 2000), HOWS), "saves")
    c.judge("Eval_Store", "store", gen_store.gets(c.rng, c.n(120, 2000), HOWS, 4), "gets")
    return c.finish("every history of two disturbed operations, and random ones of up to four, each operation disturbed in turn at every change it makes to the file "
                    "system (process ended there, half of a write done, the change failing, another process run in between); each outcome judged by the specification")

@check("C18")
def c18(pid):
    c = Check(pid)
    c.shim_env()
    c.mc_judge("MC_Store", STORE % ("cache", '{"none"}', '{"ok", "chunked", "close", "404", "500", "cut", "cutchunk", "drop", "refuse"}', "{0}", c.n(2, 3)), "MC_Store/histories", "Eval_Store", "store")
    if not c.thorough:
        c.mc_judge("MC_Store", STORE % ("cache", '{"none"}', '{"ok", "404", "cut"}', "{0}", 4), "MC_Store/long", "Eval_Store", "store")
    c.judge("Eval_Store", "store", gen_store.gets(c.rng, c.n(600, 8000), ["none"], 8), "gets")
    return c.finish("every history of two (three) downloads over two issues and nine ways the publisher may answer, all of four over three ways, and random longer ones over up to four issues")

@check("C25")
def c25(pid):
    c = Check(pid)
    c.cli_env()
    cfg = ("INIT Init\nNEXT Next\nINVARIANTS Emit Success Alone NoneIfRefused\nPROPERTIES Grows OnlyAsked\nCHECK_DEADLOCK FALSE\nCONSTANTS Vocab <- %s MaxRuns = %d\n")
    c.mc_judge("MC_Runs", cfg % ("VocabAll", c.n(2, 3)), "MC_Runs/all", "Eval_Runs", "runs")
    if not c.thorough:
        c.mc_judge("MC_Runs", cfg % ("VocabFew", 3), "MC_Runs/few", "Eval_Runs", "runs")
    c.judge("Eval_Runs", "runs", gen_runs.histories(c.rng, c.n(300, 6000)), "runs")
    return c.finish("all histories of two (three) runs over a vocabulary of nineteen, and random histories of up to three runs over random issues, acts and lists, with the "
                    "command line tool; exit status, every file and everything printed are judged by the specification")

# --------------------------------------------------------------------------------------------- PDF pages

@check("C19")
def c19(pid):
    c = Check(pid)
    cfg = "INIT Init\nNEXT Next\nINVARIANTS Emit LawsHold Order\nCHECK_DEADLOCK FALSE\nCONSTANTS Xs = %s Ys = %s Texts = %s MaxLen = %d\n"
    c.mc_all([("MC_Layout", cfg % a, f"MC_Layout/{k}", "pdf") for k, a in {
        "line": ("{0, 31, 32, 39, 40, 41, 44, 45}", "{0}", "{65, 132}", c.n(3, 4)),
        "lines": ("{0, 40}", "{0, 3, 4, 5, 7, 8, 128, 129, 131}", "{65}", c.n(3, 4)),
        "both": ("{0, 32, 41, 73}", "{0, 3, 5, 132}", "{65, 132}", c.n(2, 3)),
    }.items()])
    c.evaluate("Eval_Pdf", "pdf", gen_pdf.layouts(c.rng, c.n(2500, 25000)))
    return c.finish("all placements of a few characters around the deciding distances, and random pages of words set in several sizes and boldnesses, in random "
                    "drawing order, with gaps, offsets and line distances around the thresholds")

@check("C20")
def c20(pid):
    c = Check(pid)
    cfg = "INIT Init\nNEXT Next\nINVARIANTS Emit LawsHold SaveRestore InStep\nPROPERTY OnlyMore\nCHECK_DEADLOCK FALSE\nCONSTANTS Vocab <- %s MaxLen = %d Closing <- %s\n"
    c.mc_all([("MC_Pdf", cfg % a, f"MC_Pdf/{a[0]}", "pdf") for a in [
        ("VocabState", c.n(3, 4), "CloseDraw"), ("VocabMark", c.n(3, 4), "CloseMark"), ("VocabMove", c.n(3, 4), "CloseDraw")]])
    c.evaluate("Eval_Pdf", "pdf", gen_pdf.programs(c.rng, c.n(4000, 40000)))
    return c.finish("all short programs over three vocabularies of text operators, and random programs of up to 22 operators over random fonts, graphics "
                    "states and nested forms on up to three pages")

# --------------------------------------------------------------------------------------------- documents

WALK = ("INIT Init\nNEXT Next\nINVARIANTS Agree Bracketed_ OnlyArticles LawsHold Emit\nPROPERTY OnlyMore\nCHECK_DEADLOCK FALSE\nCONSTANTS Tree <- %s MaxCuts = %d\n")
DOC = ("INIT Init\nNEXT Next\nINVARIANTS LawsHold Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Heads <- %s Paras <- %s Points <- PointsAll Op = \"%s\" MaxLen = %d\n")
WRAP = ("INIT Init\nNEXT Next\nINVARIANTS LawsHold Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Alphabet <- %s MaxLen = %d Widths = %s\n")

@check("C21")
def c21(pid):
    c = Check(pid)
    c.mc_all([("MC_Walk", WALK % (t, c.n(2, 4)), f"MC_Walk/{t}", "doc") for t in ("TreeDeep", "TreeWide", "TreeAmend")] +
             [("MC_Doc", DOC % ("HeadsFew", "ParasFew", "walk", c.n(4, 5)), "MC_Doc/walk", "doc"),
              ("MC_Doc", DOC % ("HeadsAll", "ParasFew", "find", c.n(3, 4)), "MC_Doc/find", "doc")])
    c.evaluate("Eval_Doc", "doc", gen_doc.walks(c.rng, c.n(3000, 30000)))
    return c.finish("all visits of three trees in which the visitor goes on, replaces an element or breaks off at every event, all acts of a few growth steps, and "
                    "random annotated acts; the complete sequence of events and the resulting tree are compared")

@check("C22")
def c22(pid):
    c = Check(pid)
    c.mc_all([("MC_Doc", DOC % ("HeadsAll", "ParasAll", "wire", c.n(3, 4)), "MC_Doc/all", "doc"),
              ("MC_Doc", DOC % ("HeadsFew", "ParasFew", "wire", c.n(4, 5)), "MC_Doc/deep", "doc")])
    c.evaluate("Eval_Doc", "doc", gen_doc.wires(c.rng, c.n(2500, 25000)))
    return c.finish("all acts of a few growth steps over a vocabulary with every kind of element and annotation, and random annotated acts, written as JSON and YAML "
                    "and read back in five ways; the written value is compared with the specification's, and what was read with what was written")

@check("C23")
def c23(pid):
    c = Check(pid)
    c.mc_all([("MC_Wrap", WRAP % ("AlphaHyphen", c.n(6, 8), c.n("{0, 1, 2, 3, 5}", "0..6")), "MC_Wrap/hyphen", "doc"),
              ("MC_Wrap", WRAP % ("AlphaWide", c.n(5, 6), c.n("{1, 2, 3, 4}", "0..6")), "MC_Wrap/wide", "doc"),
              ("MC_Doc", DOC % ("HeadsAll", "ParasAll", "text", c.n(3, 4)), "MC_Doc/all", "doc"),
              ("MC_Doc", DOC % ("HeadsFew", "ParasFew", "text", c.n(4, 5)), "MC_Doc/deep", "doc")])
    c.evaluate("Eval_Doc", "doc", gen_doc.texts(c.rng, c.n(1500, 15000)) + gen_doc.lines(c.rng, c.n(1200, 8000)))
    return c.finish("all short texts over two alphabets wrapped to several widths, all acts of a few growth steps, and random annotated acts at widths from 0 to 200 "
                    "with and without colours; pages and raw acts in every format; the text is compared line by line")

@check("C24")
def c24(pid):
    c = Check(pid)
    c.mc_all(struct_mc(("StartNone", "VocabOdd", c.n(3, 4)), ("StartArt", "VocabOdd", c.n(3, 4))))
    c.evaluate("Eval_Struct", "struct", gen_struct.near_heads() + gen_struct.bodies(c.rng, c.n(4000, 40000), kinds=("odd", "odd", "soup", "damaged"), maxlines=16))
    return c.finish("line sequences nobody would draft: lone punctuation, extreme identifiers, empty bodies, unusual Unicode, broken "
                    "brackets and quotes" + BODY_RULE)

@check("C13")
def c13(pid):
    c = Check(pid)
    cfg = "INIT Init\nNEXT Next\nINVARIANTS LawsHold Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Places <- %s Vocab <- %s MaxLen = %d\n"
    c.mc_all([("MC_Amend", cfg % (*a, c.n(3, 4)), f"MC_Amend/{a[0]}", "amend") for a in (("PlacesEl", "VocabEl"), ("PlacesStr", "VocabStr"))])
    c.evaluate("Eval_Amend", "amend", gen_amend.amends(c.rng, c.n(3500, 30000)))
    return c.finish("amending paragraphs with every kind of place and quoted lines that fit it more or less; the converted paragraph, or "
                    "the unchanged one after a refusal, is compared completely; non-trivial when the conversion succeeds")

# --------------------------------------------------------------------------------------------- issues

def mk_cfg(start, vocab, n):
    return (f"INIT Init\nNEXT Next\nINVARIANTS Agree InBody LawsHold Emit\nPROPERTIES Kept OnlyInside\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
            f"  Start <- {start}\n  Vocab <- {vocab}\n  MaxLen = {n}\n")

@check("C14")
def c14(pid):
    c = Check(pid)
    c.mc_all([("MC_Mk", mk_cfg(s, v, n), f"MC_Mk/{s}", "mk") for s, v, n in [
        ("StartPlain", "VocabHead", c.n(3, 5)), ("StartSection", "VocabHead", c.n(3, 5)), ("StartAct", "VocabBody", c.n(3, 5)), ("StartEnd", "VocabBody", c.n(3, 5)), ("StartSubject", "VocabTiny", c.n(6, 8))]])
    c.drafts("Eval_MkDraft", "mk", gen_mk.issues(c.rng, c.n(1200, 12000)), lambda i, e: ({"ps": e["ps"]}, {"r": "ok", "v": e["acts"]}))
    c.evaluate("Eval_Mk", "mk", gen_mk.wild(c.rng, c.n(3000, 30000)))
    return c.finish("all continuations of five beginnings of an issue, line by line; issues set by the specification from known acts, which must be read "
                    "back exactly; and random pages of headings, headers, footnotes, signatures and text")

@check("C26")
def c26(pid):
    c = Check(pid, build=vlib.build_semantic)
    cfg = "INIT Init\nNEXT Next\nINVARIANT Laws3\nCHECK_DEADLOCK FALSE\nCONSTANTS Vocab <- %s MaxLen = %d Known <- %s\n"
    c.mc_drafts([("MC_Sem", cfg % a, f"MC_Sem/{a[0]}/{a[2]}") for a in [
        ("VocabCite", c.n(3, 4), "KnownAbc"), ("VocabName", c.n(3, 4), "KnownNone"), ("VocabName", c.n(3, 4), "KnownAbc"), ("VocabBad", c.n(4, 5), "KnownAbc")]], "sem", gen_sem.make)
    c.drafts("Eval_Sem", "sem", gen_sem.histories(c.rng, c.n(900, 15000)), gen_sem.make)
    return c.finish("all short texts over four vocabularies of citations, as plain paragraphs, introductions with a point, and with closing texts, read three times over; and random acts of up to four "
                    "articles read as a whole and one article at a time, with articles exchanged in between")

@check("C27")
def c27(pid):
    c = Check(pid, build=vlib.build_semantic)
    cfg = "INIT Init\nNEXT Next\nINVARIANT Laws4\nCHECK_DEADLOCK FALSE\nCONSTANTS Start <- %s Vocab <- %s MaxLen = %d End <- %s\n"
    c.mc_drafts([("MC_Phrase", cfg % (s, v, c.n(3, 4), e), f"MC_Phrase/{s}/{v}/{e}") for s, v, e in [
        ("StartAct", "VocabBlock", "EndNone"), ("StartAct", "VocabBlock", "EndIns"), ("StartAct", "VocabBlock", "EndAmend"),
        ("StartAct", "VocabSub", "EndNone"), ("StartAct", "VocabSub", "EndIns"), ("StartAct", "VocabSub", "EndSub"),
        ("StartAct", "VocabText", "EndText"), ("StartGone", "VocabGone", "EndNone"),
        ("StartThis", "VocabDate", "EndForce"), ("StartThis", "VocabDate", "EndNone"), ("StartThe", "VocabDate", "EndForce")]], "sem", gen_sem.make)
    c.drafts("Eval_Sem", "sem", gen_sem.phrases(c.rng, c.n(3000, 30000)), gen_sem.make)
    return c.finish("all sentences of a few atoms that begin (and end) as amendments, repeals and enforcement dates may, as one text and with the middle in a point of its own; "
                    "and random operative sentences, whole or spread over introductions, points and closing texts, with near misses of their wordings")
