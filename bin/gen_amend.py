"""Amending paragraphs: a place, and quoted lines that fit it more or less."""
from gen_struct import D, LET, HUNL, damage, clean, words, soup, ROM, HUN

def pos_ref(r):
    act = r.choice(["", "2012.1"])
    art = r.choice(["3", "12a", "2.5", "3-4", "9", "100"])
    z = r.random()
    num = r.choice(["1", "2", "5", "7a", "2-3", "9", "10", "99", "9-11"])
    if z < 0.35:
        s = f"{act}_{art.split('-')[0]}_{num}__"
        kind = ("para", num.split("-")[0])
    elif z < 0.5:
        s = f"{act}_{art.split('-')[0]}_1_{num}_"
        kind = ("np", num.split("-")[0])
    elif z < 0.7:
        l = r.choice(["a", "c", "cs", "f", "b-d", "p", "s", "ty"])
        s = f"{act}_{art.split('-')[0]}_{r.choice(['1', ''])}_{l}_"
        kind = ("ap", l.split("-")[0])
    elif z < 0.8:
        s = f"{act}_{art.split('-')[0]}_1_a_{num}"
        kind = ("nsp", num.split("-")[0])
    elif z < 0.93:
        l = r.choice(["aa", "ac", "ab-ad", "ap"])
        s = f"{act}_{art.split('-')[0]}_1_a_{l}"
        kind = ("asp", l.split("-")[0])
    else:
        s = r.choice(["2012.1____", f"_{art}___", "____", "__2__", "___a_", "____ab", f"_{art.split('-')[0]}_1_5_b"])
        kind = ("para", "2")
    return s, kind, art

def nextnum(n):
    d = "".join(c for c in n if c.isdigit())
    return str(int(d) + 1)

def series(r, kind, first):
    out, cur = [], first
    for _ in range(r.randint(1, 3) if r.random() < 0.93 else 10):
        out.append(cur)
        if kind in ("para", "np", "nsp"):
            cur = nextnum(cur) if r.random() < 0.8 else cur + "a" if cur[-1].isdigit() else nextnum(cur)
        elif kind == "ap":
            cur = (HUNL + ["a"])[HUNL.index(cur) + 1]
        else:
            cur = cur[:-1] + (LET + ["a"])[LET.index(cur[-1]) + 1]
    return out

def closings(r):
    """nested points and a tail of lines, justified or not, which closes one level after the other"""
    d = D(r)
    d.noindent = r.random() < 0.8
    kind = r.choice(["para", "para", "ap"])
    if kind == "para":
        d.put("(2) " + words(r), 0, j=0)
    ids = ["a", "b", "c"][:r.randint(2, 3)]
    num = kind == "para" and r.random() < 0.25
    for q, i in enumerate(ids):
        d.put((f"{q + 1}. " if num else f"{i}) ") + words(r), 0, j=int(r.random() < 0.3))
        if q == len(ids) - 1 or r.random() < 0.2:
            for z in range(r.randint(2, 3)):
                d.put((f"{z + 1}. " if not num and r.random() < 0.2 else f"{'' if num else i}{LET[z]}) ") + words(r), 20, j=int(r.random() < 0.3))
    for _ in range(r.randint(0, 7)):
        d.put(r.choice(["alma", "körte", "záró", "b) pont", "szöveg", "lép.", "x-"]), 0, j=int(r.random() < 0.6))
    v = "_3_2__" if kind == "para" else r.choice(["_3_1_a-b_", "_3_1_a-c_", "_3__a-b_"])
    return {"intro": "A törvény:", "qbs": [{"in": [], "ls": clean(d.out), "wu": []}], "wu": [], "pos": {"t": "ref", "v": v}}

def one(r):
    if r.random() < 0.08:
        return closings(r)
    d = D(r)
    if r.random() < 0.7:
        d.noindent = True
    if r.random() < 0.55:
        s, (kind, first), art = pos_ref(r)
        pos = {"t": "ref", "v": s}
        ids = series(r, kind, first)
        for q, i in enumerate(ids):
            h = f"({i}) " if kind == "para" else f"{i}. " if kind in ("np", "nsp") else f"{i}) "
            if q == 0 and kind == "para" and r.random() < 0.35:
                a = art.split("-")[0]
                a = {"12a": "12/A", "2.5": "2:5", "10.9": "10:9", "20.19a": "20:19/A"}.get(a, a)
                h = a + ". § " + h
            if kind == "para":
                d.para(0, h)
            elif kind == "np":
                d.text(0, h)
                if r.random() < 0.4:
                    d.asub(20, "")
                    d.wrap(20)
            elif kind == "ap":
                d.text(0, h)
                z = r.random()
                if z < 0.25:
                    d.asub(20, i)
                    d.wrap(20)
                elif z < 0.5:
                    d.nsub(20)
                    d.wrap(20)
            else:
                d.text(0, h)
        d.wrap(0)
    else:
        z = r.random()
        only = r.random() < 0.35
        if z < 0.4:
            first = r.choice(["3", "12a", "2.5", "7-8", "9", "99", "10.9", "20.19a"])
            pos = {"t": "art", "v": first, "only": False}
            a = first.split("-")[0]
            a = {"12a": "12/A", "2.5": "2:5", "10.9": "10:9", "20.19a": "20:19/A"}.get(a, a)
            d.article(a)
            for _ in range(r.randint(0, 2)):
                if r.random() < 0.3:
                    d.put("", 0)
                a = {"3": "4", "12/A": "13", "2:5": "2:6", "10:9": "10:10", "10:10": "11:1", "20:19/A": "20:19/B", "20:19/B": "20:20", "7": "8", "9": "10", "99": "100"}.get(a, "9")
                d.article(a)
        else:
            t = r.choice(["part", "title", "chapter", "subid", "subtitle", "subafter", "subbefore", "subincl", "subunknown", "subrange"])
            v = r.choice(["2", "4", "5"]) if t in ("part", "title", "chapter", "subid") else "2-3" if t == "subrange" else r.choice(["3", "12"]) if t != "subtitle" else "Cím"
            pos = {"t": t, "v": v, "only": only}
            if r.random() < 0.04:
                d.put(r.choice(["*", ".", "x", ". . .", "„”", "1. "]), 0)
            if t in ("part", "title", "chapter"):
                if r.random() < 0.7:
                    d.struct()
                else:
                    d.put(words(r), 200, 1)
            else:
                d.put(r.choice(["2. ", "", "2/A. "]) + r.choice(["Az alcím", "alcím", "Cím", "§"]), 200, int(r.random() < 0.85))
            if not only or r.random() < 0.2:
                k = r.choice([1, 4])
                for q in range(r.randint(0, 2)):
                    d.article(str(k + q))
                    if r.random() < 0.3:
                        d.subtitle(3)
            else:
                for _ in range(r.randint(0, 2)):
                    d.put(words(r), 200, 1)
    ls = d.out
    if r.random() < 0.3:
        ls = damage(r, ls)
    if r.random() < 0.05:
        pos = {"t": "none", "v": "", "only": False}
    b = {"in": [] if r.random() < 0.5 else ["be"], "ls": clean(ls), "wu": [] if r.random() < 0.6 else ["zár"]}
    qbs = [b] if r.random() < 0.95 else [b, b]
    return {"intro": "A törvény:", "qbs": qbs, "wu": [] if r.random() < 0.7 else ["lép."], "pos": pos}

def amends(r, n, maxlines=26):
    out = [{"intro": "", "qbs": [{"in": [], "ls": [], "wu": []}], "wu": [], "pos": p} for p in
           ({"t": "art", "v": "3", "only": False}, {"t": "chapter", "v": "3", "only": True}, {"t": "subid", "v": "3", "only": True},
            {"t": "chapter", "v": "3", "only": False}, {"t": "ref", "v": "_3_2__"})]
    while len(out) < n:
        i = one(r)
        if len(i["qbs"][0]["ls"]) <= (maxlines if r.random() < 0.9 else 2 * maxlines):
            out.append(i)
    return out
