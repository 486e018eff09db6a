"""Random inputs for the identifier interface."""
LOW = "abcdefghijklmnopqrstuvwxyz"
DIG = ["cs", "dz", "gy", "ly", "ny", "sz", "ty", "zs"]

def letter(r):
    return r.choice(DIG) if r.random() < 0.3 else r.choice(LOW)

def anynum(r):
    k = r.random()
    if k < 0.4:
        return r.randint(0, 30)
    if k < 0.7:
        return r.randint(0, 400)
    if k < 0.9:
        return r.randint(0, 65535)
    return r.choice([0, 1, 9, 10, 99, 100, 101, 255, 256, 999, 1000, 32767, 32768, 65534, 65535])

def num(r):
    return f"{anynum(r)}" + (letter(r) if r.random() < 0.5 else "")

def art(r):
    b = f"{r.choice([0, 1, 2, 3, 7, 10, 99, 254, 255, r.randint(0, 255)])}:" if r.random() < 0.5 else ""
    n = 1 if b and r.random() < 0.15 else anynum(r)
    return b + f"{n}" + ("/" + letter(r).upper() if r.random() < 0.5 else "")

def para(r):
    return "" if r.random() < 0.1 else num(r)

def pre(r):
    return (r.choice(LOW) if r.random() < 0.7 else "") + r.choice(LOW)

def act(r):
    return f"{r.choice([1949, 1989, 2011, 2012, 2013, 2021, r.randint(1000, 9999)])}.{r.choice([1, 4, 9, 40, 90, 100, 252, 3999, r.randint(1, 3999)])}"

GEN = {"letter": letter, "num": num, "art": art, "para": para, "pre": pre, "act": act}

def near(r, t, s):
    """identifiers likely to be neighbours of s"""
    out = []
    if t in ("num", "para", "art"):
        head, body = ("", s)
        if ":" in s:
            head, body = s.split(":")
        d = "".join(ch for ch in body if ch.isdigit())
        if d == "":
            return [GEN[t](r)]
        n = int(d)
        suf = body[len(d):].replace("/", "").lower()
        books = [head]
        if head:
            b = int(head)
            books += [str(x) for x in (b - 1, b + 1) if 0 <= x <= 255]
        if t == "art":
            books.append("")
            books.append("1")
        for _ in range(6):
            nn = min(65535, max(0, n + r.choice([-1, 0, 0, 1])))
            sf = r.choice(["", suf, "a", letter(r), nextl(r, suf)])
            hb = r.choice(books)
            if t == "art":
                out.append((hb + ":" if hb else "") + str(nn) + ("/" + sf.upper() if sf else ""))
            else:
                out.append(str(nn) + sf)
    elif t == "letter":
        out = [nextl(r, s), letter(r)]
    elif t == "pre":
        p, c = s[:-1], s[-1]
        out = [p + nextl(r, c)[0], (p or "a") + c, c, nextl(r, p)[0] + c if p else "a" + c]
    else:
        y, n = s.split(".")
        out = [f"{y}.{max(1, int(n) + r.choice([-1, 1]))}", f"{min(9999, max(1000, int(y) + r.choice([-1, 1])))}.{n}"]
    return out

def nextl(r, l):
    if l == "":
        return "a"
    base = LOW.index(l[0])
    opts = [LOW[min(25, base + 1)], LOW[max(0, base - 1)], LOW[min(25, base + 2)]]
    opts += [d for d in DIG if d[0] in (l[0], LOW[min(25, base + 1)])]
    return r.choice(opts)

def order_cases(r, n):
    out = []
    for _ in range(n):
        t = r.choice(["letter", "num", "num", "art", "art", "para", "pre", "act"])
        a = GEN[t](r)
        bs = near(r, t, a) + [GEN[t](r) for _ in range(4)] + [a]
        if t == "act":
            bs = [b for b in bs if 1 <= int(b.split(".")[1]) <= 999999]
        out.append({"op": "row", "t": t, "a": a, "bs": bs})
        if t != "act":
            ids = [a] + bs
            s, e = r.choice(ids), r.choice(ids)
            out.append({"op": "range", "t": t, "a": s, "b": e, "xs": ids + [GEN[t](r) for _ in range(3)]})
    return out

def roman(n):
    out = ""
    for s, v in (("M", 1000), ("CM", 900), ("D", 500), ("CD", 400), ("C", 100), ("XC", 90), ("L", 50), ("XL", 40), ("X", 10), ("IX", 9), ("V", 5), ("IV", 4), ("I", 1)):
        while n >= v:
            n -= v
            out += s
    return out

ONES = ["nulladik", "egyedik", "kettedik", "harmadik", "negyedik", "ötödik", "hatodik", "hetedik", "nyolcadik", "kilencedik"]
TENS = ["", "tizen", "huszon", "harminc", "negyven", "ötven", "hatvan", "hetven", "nyolcvan", "kilencven"]
SPEC = {1: "első", 2: "második", 10: "tizedik", 20: "huszadik", 30: "harmincadik", 40: "negyvenedik", 50: "ötvenedik", 60: "hatvanadik",
        70: "hetvenedik", 80: "nyolcvanadik", 90: "kilencvenedik", 100: "századik"}

def hun(n):
    return SPEC.get(n) or TENS[n // 10] + ONES[n % 10]

MONTHS = ["január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október", "november", "december"]

def loose_roman(r, n):
    """a numeral that adds up, but is not the canonical spelling"""
    s = roman(n)
    a, b = r.choice([("IV", "IIII"), ("IX", "VIIII"), ("XL", "XXXX"), ("XC", "LXXXX"), ("CD", "CCCC"), ("CM", "DCCCC"), ("V", "IIIII"), ("X", "VV"), ("", "IIII"), ("", "I"), ("I", "II")])
    return s.replace(a, b, 1) if a else s + b

# characters that look, fold or count like ones the notations use, and are none of them
LOOKALIKE = "\u212aſıİＡａ１٣²½Ⅳⅿ–—‑−．：／\u00a0\u2009\u200b\t\n\ufeff\u00ad_"
CLOSE = {"k": "\u212a", "K": "\u212a", "s": "ſ", "S": "ſ", "i": "ı", "I": "İ", "a": "а", "A": "А", "-": "–—‑−", ".": "．。", ":": "：", "/": "／∕",
         "_": "‗", " ": "\u00a0\u2009\t", "1": "１١¹l", "2": "２٢²", "V": "Ⅴ", "X": "Ⅹ", "M": "Ⅿ", "c": "с", "C": "С", "e": "е", "é": "è", "y": "у"}

def lookalikes(s):
    """every string with one character replaced by a look-alike, and with white space put before, behind and between"""
    out = []
    for p, ch in enumerate(s):
        out += [s[:p] + c + s[p + 1:] for c in CLOSE.get(ch, "")]
    for p in range(len(s) + 1):
        out += [s[:p] + c + s[p:] for c in " \t\u00a0\n"]
    return out

def damage(r, s):
    """a string one edit away"""
    if s == "":
        return r.choice(["x", " ", "1"])
    p = r.randrange(len(s))
    k = r.random()
    ch = r.choice("0123456789abcszyABCSZ/:.- +éIVXLCDM§„" if r.random() < 0.8 else LOOKALIKE)
    if k < 0.4:
        return s[:p] + ch + s[p:]
    if k < 0.7:
        return s[:p] + s[p + 1:]
    if k < 0.9:
        return s[:p] + ch + s[p + 1:]
    return s.swapcase()

def casemix(r, s):
    return r.choice([s, s, s.upper(), s.capitalize(), s.lower()])

NEAR = {"letter": ["k", "S", "ny"], "num": ["12", "1/A", "2k", "3/K", "1sz"], "art": ["1", "1/K", "12:3", "1:2/A", "2:1k"], "para": ["1", "2a", "1/K"],
        "pre": ["sk", "ki", "a"], "act": ["2012/1", "2012. évi XVI. törvény"]}

def near_cases():
    out = []
    for t, xs in NEAR.items():
        for x in xs:
            for s in [x] + lookalikes(x):
                out.append({"op": "one", "t": t, "s": s})
        for x in {"art": ["1", "12.3k", "2.1"], "act": ["2012.1", "2011.112"]}.get(t, [y for y in xs if "/" not in y]):
            for s in [x] + lookalikes(x):
                out.append({"op": "compact", "t": t, "s": s})
                if t != "act":
                    out.append({"op": "rangec", "t": t, "s": s})
    for t, x in [("letter", "a-k"), ("num", "1-2k"), ("art", "1.1-1.2k"), ("para", "1-2"), ("pre", "aa-ak")]:
        out += [{"op": "rangec", "t": t, "s": s} for s in [x] + lookalikes(x)]
    for op, xs in {"roman": ["XIV", "IX/K", "MCM"], "issue": ["2012/1", "2012/112"], "hun": ["tizenkettedik", "második"], "month": ["május"],
                   "date": ["2012. május 12."]}.items():
        for x in xs:
            out += [{"op": op, "s": s} for s in [x] + lookalikes(x)]
    return out

def notation_cases(r, n, thorough):
    out = near_cases()
    for v in range(1, 4000):
        if thorough or v <= 120 or v % 37 == 0 or r.random() < 0.1:
            out.append({"op": "roman", "s": roman(v)})
    for v in list(range(0, 130)) + [255, 256, 1000, 65535]:
        out.append({"op": "tohun", "n": v})
        if v <= 100:
            h = hun(v)
            for s in (h, h.upper(), h[0].upper() + h[1:], h[:-1], h + "k", h[0] + h[1:].upper()):
                out.append({"op": "hun", "s": s})
            out.append({"op": "hun", "s": damage(r, h)})
            out.append({"op": "one", "t": "num", "s": str(v) + letter(r)})
            out.append({"op": "one", "t": "num", "s": str(v)})
    for m in MONTHS:
        out.append({"op": "month", "s": m})
        out.append({"op": "month", "s": damage(r, m)})
        for y in (1900, 2000, 2012, 2013, 2100):
            for d in (0, 1, 9, 10, 28, 29, 30, 31, 32):
                out.append({"op": "date", "s": f"{y}. {m} {d}."})
                if r.random() < 0.1:
                    out.append({"op": "date", "s": f"{y}. {m} {d}"})
                    out.append({"op": "date", "s": f"{y}. {m} {d}. napján"})
                    out.append({"op": "date", "s": damage(r, f"{y}. {m} {d}.")})
    for _ in range(n):
        t = r.choice(["letter", "num", "num", "art", "art", "para", "pre", "act", "act"])
        s = GEN[t](r)
        if t == "act":
            y, k = s.split(".")
            k = int(k)
            if r.random() < 0.1:
                k = r.choice([0, 4000, 4001, 99999, 123456789])
            s = r.choice([f"{y}/{k}", f"{y}_{k}", f"{y}.{k}", f"{y}-{k}", f"{y}. évi {roman(k)}. törvény" if k < 4000 else f"{y}/{k}",
                          f"a {y}. évi {roman(k)}. törvény szerint" if k < 4000 else f"{y}/{k}"])
            if k < 4000 and r.random() < 0.1:
                s = f"{y}. évi {loose_roman(r, k)}. törvény"
        elif t == "num":
            d = "".join(ch for ch in s if ch.isdigit())
            l = s[len(d):]
            s = r.choice([s, d + "/" + casemix(r, l) if l else d, d + casemix(r, l), "0" + s, d + "/" + l])
        elif t in ("letter", "pre"):
            s = casemix(r, s)
        elif t == "art" and r.random() < 0.2:
            s = s.replace("/", "").lower()
        if r.random() < 0.3:
            s = damage(r, s)
        if len(s) > 9 and sum(ch.isdigit() for ch in s) > 9 and t == "act":
            s = s[:9]
        out.append({"op": "one", "t": t, "s": s})
        c = GEN[t](r)
        if t == "art":
            c = c.replace(":", ".").replace("/", "").lower()
        if t == "act" and r.random() < 0.2:
            c = r.choice(["", "-", "+"]) + c + r.choice(["", "x", "."])
        if r.random() < 0.3:
            c = damage(r, c)
        out.append({"op": "compact", "t": t, "s": c})
        if r.random() < 0.5:
            k = r.randint(1, 3999)
            s = roman(k) + r.choice(["", "", "/" + letter(r), "/" + letter(r).upper(), letter(r)])
            out.append({"op": "roman", "s": damage(r, s) if r.random() < 0.4 else s})
            if r.random() < 0.3:
                out.append({"op": "roman", "s": loose_roman(r, k)})
        if r.random() < 0.3:
            s = f"{r.randint(1949, 2040)}{r.choice('////////._-, ')}{r.randint(0, 300)}"
            out.append({"op": "issue", "s": damage(r, s) if r.random() < 0.4 else s})
        if t not in ("act",) and r.random() < 0.5:
            a, b = GEN[t](r), GEN[t](r)
            if t == "art":
                a, b = (x.replace(":", ".").replace("/", "").lower() for x in (a, b))
            s = r.choice([a, a + "-" + b, a + "-" + b, a + "-" + a])
            out.append({"op": "rangec", "t": t, "s": damage(r, s) if r.random() < 0.3 else s})
    return out
