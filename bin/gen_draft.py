"""Well-formed acts as trees, with a layout."""
from gen_struct import LET, HUNL
PLAIN = ["alma", "körte", "törvény", "szerinti", "és", "vagy", "őszi", "„idézet”", "x", "2012.", "évi", "(a", "b)", "%", "§-a", "hatályos", "e", "ly", "ÉS", "RÉSZ", "[kis]betűs", "x[y]z", "(z)y", "„a”,", "12.", "c):", "kap-csolt", "–"]
FIRST = ["alma", "körte", "törvény", "az", "őszi", "szerinti"]

def text(r, lo=1, hi=7, end=""):
    n = r.randint(lo, hi)
    ws = [r.choice(FIRST)] + [r.choice(PLAIN) for _ in range(n - 1)]
    return ws, end

def safe(ws):
    # words that could be mistaken for something when they start a line get a plain word glued before them
    return [("n" + w if w in ("„idézet”", "(a", "x", "e", "ly", "[kis]betűs", "(z)y", "„a”,", "12.", "c):") else w) for w in ws]

def T(r, lo=1, hi=7, end=""):
    ws, e = text(r, lo, hi, end)
    return " ".join(safe(ws)) + e

def B(r):
    # inside brackets a line must not end with one
    return T(r, 1, 4).replace("b)", "b")

def opt(r, p, f):
    return [f()] if r.random() < p else []

def nums(r, n):
    out, k = [], 1
    while len(out) < n:
        out.append(str(k))
        s = 0
        while len(out) < n and r.random() < 0.2 and s < 3:
            out.append(str(k) + "abc"[s])
            s += 1
        k += 1
    return out

def letters(r, n):
    seq = LET if r.random() < 0.6 else HUNL
    return seq[:n]

def leaf(r, i):
    return {"id": i, "x": T(r)}

def kids(r, i, ct, ch, p=0.4, end=""):
    return {"id": i, "in": T(r, end=end), "ct": ct, "ch": ch, "wu": opt(r, p, lambda: T(r, 1, 5))}

def asp(r, prefix):
    return [leaf(r, prefix + l) for l in LET[:r.randint(2, 4)]]

def nsp(r):
    return [leaf(r, i) for i in nums(r, r.randint(2, 4))]

def ap(r):
    out = []
    for i in letters(r, r.randint(2, 5)):
        z = r.random()
        if z < 0.2 and len(i) == 1:
            out.append(kids(r, i, "asp", asp(r, i)))
        elif z < 0.35:
            out.append(kids(r, i, "nsp", nsp(r)))
        else:
            out.append(leaf(r, i))
    return out

def np(r):
    out = []
    for i in nums(r, r.randint(2, 5)):
        out.append(kids(r, i, "asp", asp(r, "")) if r.random() < 0.25 else leaf(r, i))
    return out

INNER = ["(1) alma", "(2) körte", "a) x", "b) y", "2. § z", "II. FEJEZET", "„belső” idézet", "1. pont", "12. § (1) k", "szöveg:", "[cím]", "(x)", "- és", "a „b”", "„x” „y”", "„„x” y”", "“régi”", "„(1) x”", "3. § [T]", "ELSŐ RÉSZ"]
def qb(r, intro):
    n = r.choice([1, 1, 2])
    out = []
    for q in range(n):
        m = r.randint(1, 4)
        ls = [[r.choice(INNER), 40 + 20 * r.randint(0, 2), 0, int(r.random() < 0.5) if z < m - 1 else 0] for z in range(m)]
        out.append({"in": opt(r, 0.5, lambda: B(r)) if q == 0 and intro else [], "ls": ls,
                    "wu": opt(r, 0.3, lambda: B(r)) if q == n - 1 else []})
    return out

def para(r, i):
    z = r.random()
    if z < 0.3:
        return leaf(r, i)
    if z < 0.55:
        return kids(r, i, "ap", ap(r))
    if z < 0.75:
        return kids(r, i, "np", np(r))
    return kids(r, i, "qb", qb(r, True), 0.3, ":")

def article(r, i):
    n = r.choice([1, 1, 2, 3])
    return {"k": "art", "id": i, "title": opt(r, 0.3, lambda: T(r, 1, 6)),
            "ch": [para(r, "")] if n == 1 else [para(r, x) for x in nums(r, n)]}

def artids(r, n):
    out, k, b = [], 1, 1
    books = r.random() < 0.15
    while len(out) < n:
        if books and out and r.random() < 0.3:
            b += 1
            k = 1
        p = f"{b}:" if books else ""
        out.append(f"{p}{k}")
        if len(out) < n and r.random() < 0.15:
            out.append(f"{p}{k}/A")
        k += 1
    return out

def act(r):
    ch = []
    for i in artids(r, r.choice([1, 1, 2, 2, 3])):
        if r.random() < 0.3:
            t = r.choice(["book", "part", "spart", "title", "chapter"])
            n = str(r.randint(1, 3) if t == "spart" else r.randint(1, 40) if t in ("book", "part") else r.randint(1, 3999))
            if t in ("title", "chapter") and r.random() < 0.2:
                n += "a"
            ch.append({"k": "se", "t": t, "id": n, "title": T(r, 1, 5) if r.random() < 0.8 else ""})
        if r.random() < 0.3:
            if r.random() < 0.6:
                ch.append({"k": "sub", "id": str(r.randint(1, 120)) + r.choice(["", "", "b"]), "title": T(r, 1, 5)})
            else:
                ch.append({"k": "sub", "id": "", "title": r.choice(["Az ", "Értelmező ", "Őszi "]) + T(r, 1, 5)})
        ch.append(article(r, i))
    return {"pre": T(r, 1, 6) if r.random() < 0.4 else "", "ch": ch}

def short(r, i):
    return {"id": i, "x": T(r, 1, 2)}

def suffixed(r, n, sep, suf):
    """Numbers from 1, each of them followed by any number of suffixed ones."""
    out, k = [], 1
    while len(out) < n:
        out.append(str(k))
        if r.random() < (0.15 if n < 50 else 0.02):
            for l in suf[:r.choice([1, 2, 3, 10, 25])]:
                if len(out) < n:
                    out.append(f"{k}{sep}{l}")
        k += 1
    return out

def series(r, digraphs=True):
    """The letters a numbering may run through."""
    s = list("abcdefghijklmnopqrstuvwxyz" if r.random() < 0.5 else "abcdefghijklmnoprstuvwxyz")
    if digraphs and r.random() < 0.5:
        for d in ("cs", "dz", "gy", "ly", "ny", "sz", "ty", "zs"):
            if r.random() < 0.7:
                s.insert(s.index(d[0]) + 1, d)
    return s

def long_act(r):
    """An act of one kind of element only, but of many of them."""
    z = r.random()
    n = r.choice([9, 10, 11, 12, 19, 20, 21, 26, 34])
    def one(ct, ch):
        return {"id": "", "in": T(r, 1, 3, ":"), "ct": ct, "ch": ch, "wu": opt(r, 0.3, lambda: T(r, 1, 3))}
    def points(k):
        return [short(r, i) for i in series(r)[:k]]
    if z < 0.08:
        # subtitles may be long, but not longer than 1500 bytes
        w = r.choice(["szó", "öröm", "alma"])
        t = "Az"
        while len(t.encode()) + len(w.encode()) + 1 <= 1500:
            t += " " + w
        t += "x" * r.choice([0, 1500 - len(t.encode())])
        return {"pre": "", "ch": [{"k": "sub", "id": r.choice(["", "1"]), "title": t}, {"k": "art", "id": "1", "title": [], "ch": [short(r, "")]}]}
    if z < 0.25:
        ids = suffixed(r, r.choice([n, 99, 101, 110]), "/", [l.upper() for l in series(r, False)])
        return {"pre": "", "ch": [{"k": "art", "id": i, "title": [], "ch": [short(r, "")]} for i in ids]}
    if z < 0.5:
        ch = [short(r, i) for i in suffixed(r, r.choice([n, 101]), "", series(r, False))]
        if r.random() < 0.5:
            q = r.randrange(len(ch))
            ch[q] = dict(one("ap", points(n)), id=ch[q]["id"])
    elif z < 0.7:
        ch = [one("ap", points(n))]
        if r.random() < 0.5:
            q = r.randrange(len(ch[0]["ch"]))
            ch[0]["ch"][q] = dict(one("nsp", [short(r, i) for i in suffixed(r, n, "", series(r, False))]), id=ch[0]["ch"][q]["id"])
        elif r.random() < 0.5:
            q = r.randrange(min(8, len(ch[0]["ch"])))
            l = ch[0]["ch"][q]["id"]
            if len(l) == 1:
                ch[0]["ch"][q] = dict(one("asp", [short(r, l + i) for i in series(r, False)[:n]]), id=l)
    else:
        ch = [one("np", [short(r, i) for i in suffixed(r, r.choice([n, n, 125]), "", series(r, False))])]
        if r.random() < 0.5:
            q = r.randrange(len(ch[0]["ch"]))
            ch[0]["ch"][q] = dict(one("asp", [short(r, i) for i in series(r, False)[:n]]), id=ch[0]["ch"][q]["id"])
    return {"pre": "", "ch": [{"k": "art", "id": "1", "title": [], "ch": ch}]}

def lay(r):
    return {"step": r.choice([8, 20, 40]), "cont": r.choice([4, 8, 20, 40]), "per": r.randint(1, 6),
            "tb": int(r.random() < 0.5), "ab": int(r.random() < 0.2)}

def unnumbered(a, y):
    """in bold a line of a title that starts with a number would be a subtitle of its own"""
    if y["tb"]:
        for c in a["ch"]:
            if c["k"] in ("se", "sub"):
                c["title"] = " ".join("n" + w if w == "2012." else w for w in c["title"].split(" "))
    return {"act": a, "lay": y}

def drafts(r, n, often=12):
    out = []
    while len(out) < n // often:
        out.append(unnumbered(long_act(r), lay(r)))
    while len(out) < n:
        a = unnumbered(act(r), lay(r))
        if len(str(a)) < 3500:
            out.append(a)
    return out
