"""Acts as documents: annotated trees, widths and formats."""
import gen_draft as D
from gen_struct import LET

ESC = "\x1b"
WORDS = ["alma", "körte", "a", "ő", "az", "törvény", "szerinti", "„idézet”", "2012.", "évi", "(a)", "b)", "%", "§-a", "12-13.", "e-mail", "kap-csolt-szó", "-", "--x-y", "x-", "–", "a–b",
         "árvíztűrőtükörfúrógép", "legmegszentségteleníthetetlenebb", "1:23/A.", "[x]", "…", "null", "yes", "1", "0x1F", "1e3", "#", "key: value", "'q'", "\"dq\"", "~", "|", "- item", "é", "@", "&a", "*b", "!t", "%d", ",", "?", "{}", "{a: 1}", "[]", "true", ":", "::", "<<"]

def text(r, lo=0, hi=9):
    n = r.randint(lo, hi) if r.random() > 0.01 else r.randint(40, 70)
    s = ""
    for q in range(n):
        s += r.choice(WORDS)
        if q < n - 1:
            s += r.choice([" "] * 9 + ["  ", "   "])
    z = r.random()
    if z < 0.05:
        s = " " + s
    elif z < 0.1:
        s = s + "  "
    return s

def opt(r, p, f):
    return [f()] if r.random() < p else []

def rng(r, a, b):
    return [a] if r.random() < 0.7 else [a, b]

def ref(r):
    v = {"act": opt(r, 0.4, lambda: [r.choice([1989, 2012]), r.choice([1, 100, 4000])]), "art": [], "par": [], "pt": [], "sp": []}
    d = r.randint(0, 4)
    if d == 0:
        v["act"] = [[2012, 1]]
        return v
    alpha = r.random() < 0.5
    chain = ["art", "par", "pt", "sp"]
    last = {"art": ("1:2", "1:5/A") if r.random() < 0.3 else ("3", "12/B"), "par": ("1", "4a"), "pt": ("b", "cs") if alpha else ("2", "11a"), "sp": ("ba", "bd") if alpha and r.random() < .6 else ("1", "3")}
    for q, k in enumerate(chain[:d]):
        v[k] = rng(r, *last[k]) if q == d - 1 else [last[k][0]]
    if d >= 3 and r.random() < 0.4:
        v["par"] = []
    return v

def num(r):
    return str(r.choice([1, 2, 3, 10, 40])) + r.choice(["", "", "a", "b"])

def sref(r):
    k = r.choice(["Part", "Title", "Chapter", "SubtitleId", "SubtitleRange", "SubtitleTitle", "SubtitleAfterArticle", "SubtitleBeforeArticle", "SubtitleBeforeArticleInclusive", "SubtitleUnknown", "Article"])
    def val(k):
        if k in ("SubtitleRange",):
            return rng(r, "2", "5a")
        if k == "Article":
            return rng(r, "2:3", "2:7/A")
        if k == "SubtitleTitle":
            return [text(r, 1, 3)]
        if k == "SubtitleUnknown":
            return []
        if k.startswith("Subtitle") and k != "SubtitleId":
            return [r.choice(["12/A", "3", "2:1"])]
        return [num(r)]
    def par():
        q = r.choice(["Part", "Title", "Chapter", "SubtitleId", "SubtitleRange", "SubtitleTitle"])
        return {"k": q, "v": val(q)}
    return {"act": opt(r, 0.4, lambda: [2012, r.choice([1, 5])]), "book": opt(r, 0.3, lambda: num(r)), "parent": opt(r, 0.4, par), "el": {"k": k, "v": val(k)}, "only": r.random() < 0.3}

def date(r):
    return f"{r.choice([1989, 2012, 2024])}-{r.randint(1, 12):02}-{r.randint(1, 28):02}"

def phrase(r):
    k = r.choice(["ba", "sba", "ed", "rep", "ta"])
    if k in ("ba", "sba"):
        return {"k": k, "pos": ref(r) if k == "ba" else sref(r), "ins": r.random() < 0.5}
    if k == "ed":
        z = r.random()
        d = {"k": "date", "d": date(r)} if z < 0.4 else {"k": "days", "n": r.choice([0, 1, 8, 65535])} if z < 0.7 else \
            {"k": "month", "month": opt(r, 0.5, lambda: r.randint(1, 12)), "day": r.randint(1, 31)}
        return {"k": k, "positions": [ref(r) for _ in range(r.randint(0, 2))], "spos": [sref(r) for _ in range(r.randint(0, 2))], "def": r.random() < 0.4, "date": d, "rep": opt(r, 0.3, lambda: date(r))}
    if k == "rep":
        return {"k": k, "l": [{"k": "r", "r": ref(r)} if r.random() < 0.6 else {"k": "s", "s": sref(r)} for _ in range(r.randint(0, 3))]}
    def target():
        z = r.random()
        if z < 0.6:
            return {"k": "sae", "r": ref(r), "part": r.choice(["All", "All", "IntroOnly", "WrapUpOnly"])}
        return {"k": "st", "s": sref(r)} if z < 0.8 else {"k": "at", "r": ref(r)}
    return {"k": k, "l": [{"ref": target(), "from": text(r, 0, 2), "to": text(r, 0, 2)} for _ in range(r.randint(0, 2))]}

def abbr(r):
    names = r.sample(["Ptk.", "Btk.", "Áfa tv.", "x: y", "", "1", "null"], r.randint(0, 2))
    return [[n, r.choice([1978, 2013]), r.choice([1, 5, 5000])] for n in names]

def info(r, t):
    cuts = sorted(r.sample(range(len(t) + 1), min(len(t) + 1, 2 * r.randint(0, 2))))
    if r.random() < 0.12:
        # references of no text, some at the edge of another
        cuts = sorted(cuts + [r.choice(cuts + [r.randint(0, len(t))])] * 2)
    if len(cuts) % 2:
        cuts.pop()
    return {"refs": [[cuts[q], cuts[q + 1], ref(r)] for q in range(0, len(cuts), 2)], "abbr": abbr(r) if r.random() < 0.3 else [], "sp": opt(r, 0.3, lambda: phrase(r))}

def change(r):
    k = r.choice(["amend", "auto", "other"])
    c = {"date": date(r), "k": k}
    if k == "amend":
        c["r"] = ref(r)
    if k == "other":
        c["s"] = text(r, 0, 3)
    return [c]

def note(r, e, p):
    if r.random() < p:
        e["lc"] = change(r) if r.random() < 0.8 else []
    return e

def el(r, i, kids, p):
    """kids: None or (ct, ch)"""
    if kids is None:
        e = {"id": i, "x": text(r)}
        t = e["x"]
    else:
        e = {"id": i, "in": text(r), "ct": kids[0], "ch": kids[1], "wu": opt(r, 0.35, lambda: text(r, 0, 5))}
        t = e["in"]
    if r.random() < p:
        e["si"] = info(r, t)
    return note(r, e, p * 0.5)

def nums(r, n):
    out = D.nums(r, n)
    if out and r.random() < 0.06:
        out[-1] = r.choice(["100", "999a", "1000", "12345b", "65535"])
    return out

def parids(r, n):
    out = nums(r, n)
    if out and r.random() < 0.08:
        out[0] = "0"
    return out

def listof(r, ct, p, deep, prefix=""):
    n = r.randint(0, 3) if r.random() < 0.15 else r.randint(1, 3)
    if ct == "asp":
        return [el(r, prefix + i, None, p) for i in LET[:n]]
    if ct == "nsp":
        return [el(r, i, None, p) for i in nums(r, n)]
    if ct == "ap":
        ids = D.letters(r, n)
        return [el(r, i, None if r.random() < 0.6 or not deep else (lambda c: (c, listof(r, c, p, False, i if len(i) == 1 and r.random() < 0.7 else "")))(r.choice(["asp", "nsp"])), p) for i in ids]
    if ct == "np":
        return [el(r, i, None if r.random() < 0.6 or not deep else ("asp", listof(r, "asp", p, False)), p) for i in nums(r, n)]
    return [para(r, i, p, deep and 1) for i in parids(r, n)]

def line(r):
    t = r.choice(D.INNER + ["", "hosszabb szöveg, amely nem törik sorokra, bármilyen hosszú is legyen az egész sor"])
    if t == "":
        return ["", 0, 0, 0]
    return [t, r.choice([0, 40, 60, 80, 99, 101, 260, 700, 1500]), int(r.random() < 0.3), int(r.random() < 0.5)]

def block(r):
    return {"in": opt(r, 0.4, lambda: text(r, 0, 4)), "ls": [line(r) for _ in range(r.randint(0, 4))], "wu": opt(r, 0.3, lambda: text(r, 0, 4))}

def para(r, i, p, deep=2):
    z = r.random()
    if z < 0.35 or not deep:
        return el(r, i, None, p)
    if z < 0.55:
        return el(r, i, ("ap", listof(r, "ap", p, True)), p)
    if z < 0.7:
        return el(r, i, ("np", listof(r, "np", p, True)), p)
    if z < 0.8:
        return el(r, i, ("qb", [block(r) for _ in range(r.randint(0, 2))]), p)
    if z < 0.9:
        ct = r.choice(["para", "ap", "np", "asp", "nsp"])
        return el(r, i, ("ba", {"in": opt(r, 0.5, lambda: text(r, 0, 4)), "wu": opt(r, 0.3, lambda: text(r, 0, 4)), "ct": ct, "ch": listof(r, ct, p, deep > 1)}), p)
    return el(r, i, ("sba", {"in": opt(r, 0.5, lambda: text(r, 0, 4)), "wu": opt(r, 0.3, lambda: text(r, 0, 4)), "ch": children(r, r.randint(0, 3), p, deep - 1)}), p)

def children(r, n, p, deep=2, bad=0.03):
    ch = []
    ids = D.artids(r, n) + ["7", "7/A"]
    for _ in range(n):
        z = r.random()
        if z < 0.2:
            t = r.choice(["book", "part", "spart", "title", "chapter"])
            v = str(r.randint(1, 3) if t == "spart" else r.randint(1, 40))
            if r.random() < 0.1 and t != "spart":
                v += "b"
            if r.random() < bad:
                v = r.choice(["0", "4000", "101", "100", "4", "1a"])
            ch.append(note(r, {"k": "se", "t": t, "id": v, "title": text(r, 0, 4) if r.random() < 0.7 else ""}, p * 0.5))
        elif z < 0.4:
            ch.append(note(r, {"k": "sub", "id": num(r) if r.random() < 0.6 else "", "title": text(r, 0, 5)}, p * 0.5))
        else:
            i = ids.pop(0) if r.random() < 0.85 else ids[-1]
            m = r.choice([0, 1, 1, 1, 2, 3])
            kids = [para(r, "", p, deep)] if m == 1 else [para(r, x, p, deep) for x in parids(r, m)]
            ch.append(note(r, {"k": "art", "id": i, "title": opt(r, 0.4, lambda: text(r, 0, 6)), "ch": kids}, p * 0.5))
    return ch

def act(r, p=0.0, n=None):
    return {"y": r.choice([1989, 2012, 2024]), "n": r.choice([1, 5, 44, 3999, 4000]), "subject": text(r, 0, 5), "pre": text(r, 0, 9) if r.random() < 0.6 else "", "date": date(r),
            "abbr": abbr(r) if r.random() < p else [], "ch": children(r, r.randint(0, 4) if n is None else n, p)}

def small(r, p, limit=6000):
    while True:
        a = act(r, p)
        if len(str(a)) < limit:
            return a

def events(es):
    return sum(2 + (events(e["ch"]) if e.get("ct") in ("ap", "np", "asp", "nsp") else 0) for e in es)

def walks(r, n):
    out = []
    for _ in range(n):
        a = small(r, 0.1)
        m = sum(events(c["ch"]) for c in a["ch"] if c["k"] == "art")
        stop = 0 if r.random() < 0.5 else r.randint(1, m + 2)
        k = r.choice(["walk", "edit", "edit", "find"])
        if k == "walk":
            out.append({"op": k, "act": a, "stop": stop})
        elif k == "edit":
            out.append({"op": k, "act": a, "stop": stop, "cuts": sorted(r.sample(range(1, m + 3), min(m + 2, r.randint(0, 4))))})
        else:
            have = [c["id"] for c in a["ch"] if c["k"] == "art"]
            ids = [r.choice(have + ["1", "2", "7", "1:1", "1/A"]) for _ in range(r.randint(1, 4))]
            out.append({"op": k, "act": a, "ids": ids})
    return out

def wires(r, n):
    return [{"op": "wire", "act": small(r, r.choice([0.0, 0.3, 0.6]), 9000)} for _ in range(n)] + \
           [x for x in lines(r, n // 4) if x.get("f") in ("json", "yaml")]

def texts(r, n):
    return [{"op": "text", "act": small(r, 0.3, 5000), "width": r.choice([0, 1, 5, 12, 20, 25, 31, 40, 60, 80, 80, 105, 200, 210, 250, 1000]), "f": r.choice(["plain", "plain", "test", "colored", "colored"]), "esc": ESC} for _ in range(n)]

def lines(r, n):
    out = []
    for _ in range(n):
        z = r.random()
        f = r.choice(["plain", "test", "test", "colored", "json", "yaml"])
        if z < 0.4:
            out.append({"op": "raw", "y": 2012, "n": r.choice([1, 4000]), "subject": text(r, 0, 3), "date": date(r), "ls": [line(r) for _ in range(r.randint(0, 5))], "width": 80, "f": f})
        elif z < 0.7:
            out.append({"op": "pages", "ps": [[line(r) for _ in range(r.randint(0, 4))] for _ in range(r.randint(0, 3))], "width": 80, "f": f})
            if r.random() < 0.01:
                out[-1]["ps"] = [[line(r) for _ in range(r.choice([0, 0, 1]))] for _ in range(r.randint(98, 130))]
        else:
            out.append({"op": "show", "l": line(r), "tags": r.random() < 0.6})
    return out
