"""Issues of Magyar Közlöny as pages of lines: well-set ones, and pages put together at random."""
MONTHS = ["január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október", "november", "december"]
SIGNS = ["köztársasági elnök az Országgyűlés elnöke", "köztársasági elnök az Országgyűlés alelnöke", "az Országgyűlés elnöke, az Országgyűlés alelnöke,"]
STOPS = ["III. Kormányrendeletek", "IV. A Magyar Nemzeti Bank elnökének rendeletei, valamint az", "V. A Kormány tagjainak rendeletei", "VI. Az Alkotmánybíróság határozatai és",
         "VII. A Kúria határozatai", "IX. Határozatok Tára"]
E = ["", 0, 0, 0]

def roman(n):
    out = ""
    for s, v in (("C", 100), ("XC", 90), ("L", 50), ("XL", 40), ("X", 10), ("IX", 9), ("V", 5), ("IV", 4), ("I", 1)):
        while n >= v:
            out, n = out + s, n - v
    return out

def ln(r, t, b=0):
    return [t, r.choice([0, 0, 4, 40, 80]), b, r.randint(0, 1)]

TEXTS = ["1. § A törvény", "(2) A 2012. évi C. törvény 5. §-a", "a) pont", "„idézet”", "szöveg-", "és így", "2013. évi V. törvény", "A *-gal jelölt", "II. Törvények", "III. Kormányrendeletek",
         "X s. k., Y s. k.,", "köztársasági elnök", "MAGYAR KÖZLÖNY 2. szám", "2011. évi IV. törvény a másikról*", "I. FEJEZET", "*"]

def body(r, lo=1, hi=6):
    out = []
    for _ in range(r.randint(lo, hi)):
        if r.random() < 0.15 and out:
            out.append(E)
        else:
            out.append(ln(r, r.choice(TEXTS[:-1]), int(r.random() < 0.1)))
    if all(l == E for l in out):
        out.append(ln(r, "szöveg"))
    # section headings are bold; a bold line of the body is not one
    for l in out:
        if l[0].startswith(("II. T", "III. K")):
            l[2] = 0
    for _ in range(r.choice([0, 0, 0, 1])):
        out.insert(r.randint(1, len(out)), ln(r, r.choice(["III.", "III. RÉSZ", "V. A Kormány", "IX. Határozatok", "VI. Az Alkotmánybíróság", "VII. FEJEZET", "III. K", "II. FEJEZET"]), 1))
    return out

def cover(r, y, m, d):
    return [ln(r, f"MAGYAR KÖZLÖNY {r.randint(1, 200)}. szám"), E, ln(r, "A MAGYAR KÖZTÁRSASÁG HIVATALOS LAPJA", 1),
            ln(r, f"{y}. {MONTHS[m - 1]} {d}., {r.choice(['hétfő', 'kedd'])}")]

def subject(r):
    ls = r.choice([["a dologról*"], ["az állam-", "háztartásról*"], ["egyes törvények", "módosításáról*"], ["egyes törvények hatály-", "és", "köréről*"], ["a *-os dologról*"], ["*"], ["a dologról**"], ["**"], ["a dologról *"]])
    return [ln(r, t, 1) for t in ls]

def issues(r, n):
    out = []
    for _ in range(n):
        y, m, d = r.randint(1949, 2025), r.randint(1, 12), r.randint(1, 28)
        acts = []
        for _ in range(r.choice([1, 1, 2, 3])):
            ay, an = r.choice([y, y, 1990, 2099]), r.randint(1, 250)
            if str(ay)[1] not in "09":
                ay = 2001
            pages = [body(r) for _ in range(r.choice([1, 2, 2, 3]))]
            acts.append({"id": [ay, an], "head": f"{ay}. évi {roman(an)}. törvény" + r.choice(["", "", "*"]), "subject": subject(r), "pages": pages, "note": r.random() < 0.8, "blank": r.choice([0, 0, 0, 1, 2]), "lead": r.choice([0, 0, 0, 1, 2])})
        sec = r.random() < 0.8
        cov = cover(r, y, m, d)
        toc = []
        if sec:
            for _ in range(r.randint(0, 3)):
                (cov if r.random() < 0.5 else toc).append(ln(r, r.choice(["Tartalomjegyzék", "2012. évi V. törvény a másikról", "I. Az Országgyűlés", "", "2010. évi VI. törvény*"])))
        else:
            toc = [ln(r, "Tartalomjegyzék"), ln(r, f"2013. évi VI. törvény a másikról", 1)]
        rest = []
        if r.random() < 0.7:
            rest = [ln(r, r.choice(STOPS), 1), E]
            for _ in range(r.randint(0, 5)):
                rest.append(r.choice([E, ln(r, "2011. évi X. törvény", 1), ln(r, "a harmadikról*", 1), ln(r, "szöveg"), ln(r, r.choice(SIGNS)), ln(r, r.choice(STOPS), 1)]))
        clean = lambda ls: [l if l[0] else E for l in ls]
        out.append({"cover": clean(cov), "toc": clean(toc), "acts": acts, "note": r.choice(["* A törvényt az Országgyűlés a 2010. november 22-i ülésnapján fogadta el.", "*"]), "sign": r.choice(SIGNS),
                    "date": [y, m, d], "rest": clean(rest), "sec": sec})
    return out

DATES = ["2011. június 28., kedd", "2011. június 31., kedd", "2012. február 29.", "2011. február 29.", "1900. február 29.", "2000. február 29.", "2011. június 8.", "2011. június 28 kedd", "2011. június 281.",
         "2011 június 28.", "2011. Június 28.", "2011. június  28.", "11. június 28.", "12011. június 28.", " 2011. június 28.", "2011. június 0.", "2011. június 00.", "2011. június 08.", "2011. 28.",
         "2011. június.", "2011. augusztus 20.", "2011. xyz 1.", "", "2011. június 2", "2011. június ", "2011. december 31., szombat", "0000. január 1.", "2011.\u00a0június 28.", "２０１１. június 28."]
HEADS = ["2011. évi LXXX. törvény", "2011. évi LXXX. törvény*", "2011. évi LXXX. Törvény", "2011. évi LXXX törvény", "2011. évi LXXXXX. törvény", "2011. évi DC. törvény", "2011. évi CD. törvény", "1911. évi I. törvény",
         "2111. évi I. törvény", "3011. évi I. törvény", "2011 évi I. törvény", "2011. évi. törvény", "2011. évi . törvény", " 2011. évi I. törvény", "A 2011. évi I. törvény", "2011.évi I. törvény",
         "2011. évi 5. törvény", "2011. évi Ix. törvény", "2011. évi IIX. törvény", "1001. évi I. törvény", "2999. évi CCCXCIX. törvényről szóló", "20115. évi I. törvény", "2011. évi I. törvén",
         "2011. évi XIIII. törvény", "2011. évi IIII. törvény", "2011. évi XIIV. törvény", "2011. évi VV. törvény", "2011. évi IXI. törvény", "2011. évi I I. törvény", "2011. évi  II. törvény", "2011. évi II.  törvény"]
LINES = ["* jegyzet", "*", "", "", "", "", "X s. k., Y s. k.,", "szöveg", "a dologról*", "tárgy-", "II. Törvények", "II. Törvények ", "III. Kormányrendeletek", "VIII. Más", "III.", "III", "V. A Kormány", "V. A Kormány tagjainak", "VI.", "IX. Határozatok", "IV. A Magyar Nemzeti Bank", "II. Törvénye", "a dologról**", "**", "IX. Határozatok Tára folyt."] + SIGNS + \
        ["köztársasági elnök az Országgyűlés elnöke,", "az Országgyűlés elnöke köztársasági elnök"]

def nick(r, t):
    """The text with a character missing or changed."""
    k = r.choice([len(t) - 1, len(t) - 1, 0, r.randrange(len(t))])
    return t[:k] + r.choice(["", "", t[k].swapcase(), "x"]) + t[k + 1:]

def small(r):
    """An act of a few lines, mostly empty ones, notes and signatures."""
    p = [E, ln(r, r.choice(HEADS[:2]), 1), ln(r, "a dologról*", 1)]
    p += [r.choice([E, E, E, ln(r, "x"), ln(r, "* jegyzet"), ln(r, "*")]) for _ in range(r.randint(0, 6))]
    return p + r.choice([[E], [E], []]) + r.choice([[ln(r, "X s. k., Y s. k.,")], [E], []]) + [ln(r, r.choice(SIGNS))]

def wild(r, n):
    out = []
    for _ in range(n):
        c = cover(r, 2011, 6, r.randint(1, 30))
        z = r.random()
        if z < 0.35:
            c[3] = ln(r, r.choice(DATES))
        elif z < 0.45:
            r.choice([lambda: c.pop(0), lambda: c.pop(), lambda: c.pop(1), lambda: c.__setitem__(0, ln(r, "M A G Y A R K Ö Z L Ö N Y")), lambda: c.__setitem__(0, ln(r, r.choice([" MAGYAR KÖZLÖNY", "MAGYAR KÖZLÖN", "MAGYAR KÖZLÖN 3. szám", "MAGYAR", "MAGYAR KÖZLÖNY", "Magyar Közlöny", "AGYAR KÖZLÖNY 3"]))), lambda: c.insert(0, E)])()
        pages = [c]
        for _ in range(r.choice([0, 1, 2, 3, 3, 4])):
            p = []
            for _ in range(r.randint(0, 10)):
                q = r.random() if pages[1:] or p else 0.3
                if q < 0.05:
                    p += small(r)
                elif q < 0.12:
                    p += [E, ln(r, r.choice(HEADS), int(r.random() < 0.8)), ln(r, "a dologról*", 1), ln(r, "x")]
                elif q < 0.2:
                    p += [E, ln(r, "X s. k., Y s. k.,"), ln(r, r.choice(SIGNS))]
                elif q < 0.25:
                    p += [E, ln(r, "* jegyzet"), E]
                elif q < 0.35:
                    p.append(ln(r, "II. Törvények", int(r.random() < 0.8)))
                elif q < 0.4:
                    p.append(ln(r, r.choice(STOPS), int(r.random() < 0.8)))
                elif q < 0.5:
                    p.append(ln(r, r.choice(HEADS), int(r.random() < 0.5)))
                else:
                    p.append(ln(r, r.choice(LINES), int(r.random() < 0.2)))
            pages.append(p)
        if r.random() < 0.15:
            p = r.choice(pages)
            if p:
                k = r.choice([0, r.randrange(len(p))])
                if len(p[k][0]) > 1:
                    p[k] = [nick(r, p[k][0])] + p[k][1:]
        out.append({"ps": [[l if l[0] else E for l in p] for p in pages]})
    return out
