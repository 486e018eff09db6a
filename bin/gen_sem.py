"""Inputs for the semantic parser: acts whose texts are sequences of atoms (spec/Cite.tla), and what is done to them."""
import gen_ident as gi

ABBR = ["Ptk.", "Kbt.", "Áht.", "Eüak.", "Mt.", "Tv2", "Ákr.", "Áfa tv.", "Áfa tv. vhr.", "Mt. vhr.", "Mtv", "Mtvr", "Kormányrendelet-tervezet"]
WORDS = ["szerint", "eljárás", "kell", "a bíróság dönt", "szabályait", "alkalmazni", "foglaltak esetén", "Őrület", "az ügyfél", "ha", "nem", "azonban", "kérelem-elbírálás",
         "2012-ben", "15 napon belül", "12. napon", "(x)", "100 %", "§", "bekezdés", "pont", "a b) jelű", "(1) mondat", "5. számú", "3. helyen", "törvény", "évi", "– így –", "aa) bb", "1/A", "a 2. és 3. alkalommal",
         "a) és b) jelű", "(továbbiakban: x)", "2012. évi kimutatás", "II. fokon", "„", "”", "!"]
DECOYS = {"pont", "bekezdés", "§", "törvény", "évi"}      # not where they could end what stands before
PLAIN = [w for w in WORDS if w not in ("„", "”")]
SEP = [",", ";", " és", ", és", " valamint", ", valamint", "; valamint", " illetve", ", illetve", " vagy", ", vagy"]
DASH = ["–", "-", "−"]
SUF = {"art": ["§", "§-a", "§-ában", "§-ának"], "para": ["bekezdés", "bekezdése", "bekezdésében"], "ap": ["pont", "pontja", "pontjában"], "np": ["pont", "pontja", "pontjában"],
       "asp": ["alpont", "alpontja", "alpontjában"], "nsp": ["alpont", "alpontja"]}
LET = "a b c cs d dz e f g gy h i j k l ly m n ny o p q r s sz t ty u v w x y z zs".split()

def num(r, hi=120):
    return str(r.choice([r.randint(1, 9), r.randint(1, hi)]))

def ident(r, t):
    if t == "art":
        return num(r) + (r.choice(["/A", "/B", "/K", "/Z"]) if r.random() < 0.25 else "")
    if t == "para":
        return num(r, 30) + (r.choice(LET) if r.random() < 0.15 else "")
    if t == "ap":
        return r.choice(LET)
    if t == "np":
        return num(r) + (r.choice(["", "/"]) + r.choice(LET) if r.random() < 0.2 else "")
    if t == "asp":
        return r.choice("abcdefghijklmnopqrstuvwxyz") + r.choice(list("abcdefghijklmnopqrstuvwxyz") + [""])
    return num(r, 30)

def part(r, t, first, far=0.0):
    p = {"s": ident(r, t), "e": "", "d": "", "f": 0, "sep": "" if first else r.choice(SEP) + (r.choice([" a", " az"]) if r.random() < 0.2 else "") + " "}
    if r.random() < far:
        p["s"] = r.choice(["70000", "0", "99999", "65535"]) if t in ("art", "para", "np", "nsp") else p["s"]
    if r.random() < 0.2:
        p["e"] = ident(r, t)
        p["d"] = r.choice(DASH)
        p["f"] = int(r.random() < 0.3 and t in ("art", "ap"))
    if t == "art" and r.random() < 0.15:
        b = str(r.randint(1, 12))
        p["s"] = b + ":" + p["s"]
        if p["e"] and r.random() < 0.5:
            p["e"] = b + ":" + p["e"]
    return p

def level(r, t, last, many=0.25, far=0.0):
    n = 1 if r.random() > many else r.choice([2, 2, 3])
    ps = [part(r, t, q == 0, far) for q in range(n)]
    if not last and r.random() < 0.9:
        ps[-1].update(e="", d="", f=0)
    return {"t": t, "ps": ps, "suf": r.choice(SUF[t][:1] * 4 + SUF[t]) if not last else r.choice(SUF[t])}

CHAINS = [["art"]] * 5 + [["art", "para"]] * 5 + [["art", "ap"], ["art", "np"], ["art", "para", "ap"], ["art", "para", "ap"], ["art", "para", "np"], ["art", "para", "ap", "asp"], ["art", "para", "np", "asp"],
          ["art", "ap", "asp"], ["art", "ap", "nsp"], ["para"], ["para"], ["para", "ap"], ["ap"], ["np"], ["ap", "asp"], ["ap", "nsp"], ["asp"], ["nsp"], ["para", "np", "asp"]]

def ref(r, p=" ", chain=None, many=0.25, far=0.0):
    c = chain or r.choice(CHAINS)
    return {"k": "ref", "p": p, "lv": [level(r, t, q == len(c) - 1, many, far) for q, t in enumerate(c)]}

def act(r, p=" ", ab=0.3, far=0.0):
    n = gi.roman(r.randint(1, 300))
    y = str(r.randint(1949, 2030))
    if r.random() < far:
        y, n = r.choice([(y, "IIII"), ("40000", n), (y, "VX"), ("0", n)])
    return {"k": "act", "p": p, "y": y, "n": n, "suf": r.choice(["törvény", "törvény", "törvényben", "törvénynek", "tv."]), "colon": r.choice([":", ":", ""]),
            "ab": r.choice(ABBR) if r.random() < ab else ""}

def word(r, p=" "):
    w = r.choice(PLAIN)
    return {"k": "w", "p": p, "s": "szó" if p == "" and w in DECOYS else w}

def citation(r, known, far=0.0):
    """a mention of an act, references, or both"""
    out = []
    z = r.random()
    if z < 0.35:
        out.append(act(r, far=far))
    elif z < 0.6:
        out.append({"k": "ab", "p": " ", "s": r.choice(known or ABBR) if r.random() < 0.85 else r.choice(ABBR)})
    if not out or r.random() < 0.7:
        n = r.choice([1, 1, 1, 2, 2, 3])
        for q in range(n):
            if q:
                out.append({"k": "sep", "p": "", "s": r.choice(SEP) + (r.choice([" a", " az"]) if r.random() < 0.3 else "")})
            ch = None
            if q == 0 and out and r.random() < 0.85:
                ch = r.choice([c for c in CHAINS if c[0] == "art"])
            out.append(ref(r, chain=ch, far=far))
    return out

def text(r, known, far=0.0, n=None, end=True):
    """words and citations"""
    out = [word(r, "")]
    for _ in range(n if n is not None else r.choice([0, 1, 1, 2, 3])):
        z = r.random()
        if z < 0.75:
            out += citation(r, known, far)
        elif z < 0.85:
            q = text(r, known, n=1, end=False)
            out.append({"k": "q", "p": " ", "s": r.choice(["szó", "az 5. §", "2012. évi I. törvény", "Ptk. 5. §", "(1) bekezdés „belső” a) pont", ""])})
        else:
            out.append({"k": "w", "p": " ", "s": r.choice(["1. melléklet", "2. és 3. melléklete", "1. számú melléklet", "4–5. mellékletében"])})
            out.append({"k": "w", "p": " ", "s": r.choice(["szó", "kérelem", "határidő"])})
        out.append(word(r))
    if end and r.random() < 0.6:
        out.append({"k": "w", "p": "", "s": r.choice([".", ".", ":", "!", "?"])})
    return out

JUNK = ["", "", "", ",", ";", " és", ", és", ", valamint", " vagy", " illetve", ", továbbá", ", és a", ",;", "; vagy a", ", illetve"]

def element(r, i, known, depth, far=0.0, kinds=("ap", "np")):
    e = {"id": i, "as": text(r, known, far, end=depth == 0 or r.random() < 0.5), "junk": ""}
    if depth > 0 and r.random() < 0.5:
        ct = r.choice(kinds)
        ids = {"ap": ["a", "b", "c"], "np": ["1", "2", "3"], "asp": ["aa", "ab", "ac"], "nsp": ["1", "2", "3"]}[ct][:r.randint(1, 3)]
        if r.random() < 0.4 and e["as"][-1]["k"] == "w":
            e["as"] += citation(r, known)      # goes on in the points
        e["ct"] = ct
        e["ch"] = [element(r, j, known, depth - 1, 0.0, ("asp", "nsp") if ct == "ap" else ("asp",)) for j in ids]
        for c in e["ch"]:
            z = r.random()
            if z < 0.4 and "ct" not in c:
                c["as"] = citation(r, known)
                c["as"][0] = dict(c["as"][0], p="")
            if "ct" not in c:
                c["junk"] = r.choice(JUNK)
                if r.random() < 0.7 and c["as"][-1]["s"] in (".", ":", "!", "?") if c["as"][-1]["k"] == "w" else False:
                    c["as"] = c["as"][:-1]
        e["wu"] = [dict(x, p="" if q == 0 else x["p"]) for q, x in enumerate(text(r, known, n=r.choice([0, 1, 1])))] if r.random() < 0.4 else []
    return e

def atoms(e):
    """in the order in which they stand"""
    return e["as"] + [a for c in e.get("ch", []) for a in atoms(c)] + e.get("wu", [])

def settle(e, known):
    """an abbreviation is not used in the passage before the place that introduces it"""
    seen, l = set(known), atoms(e)
    for q, a in enumerate(l):
        if a["k"] == "act" and a["ab"]:
            seen.add(a["ab"])
        elif a["k"] == "ab" and a["s"] not in seen and any(b["k"] == "act" and b["ab"] == a["s"] for b in l[q:]):
            a["s"] = "Xyz."
    return e

def article(r, i, known, far=0.0):
    n = r.choice([1, 1, 2, 3])
    return {"id": i, "ps": [settle(element(r, "" if n == 1 else str(q + 1), known, 2, far), known) for q in range(n)]}

def history(r, far=0.0, steps=None):
    known = [[a, r.randint(1990, 2020), r.randint(1, 200)] for a in r.sample(ABBR, r.choice([0, 1, 2, 3]))]
    names = [k[0] for k in known]
    out, ids = [], ["1"]
    for q in range(steps or r.choice([1, 1, 2, 3, 4])):
        s = {"do": "all", "arts": []}
        if q == 0 or r.random() < 0.4:
            ids = ["1", "2", "3", "3/A"][:r.choice([1, 1, 2, 3, 4])]
            s["arts"] = [article(r, i, names, far) for i in ids]
        if r.random() < 0.4 and q > 0:
            s["do"] = r.choice(ids + ["9"] if r.random() < 0.2 else ids)
        out.append(s)
    return {"known": known, "steps": out}

KIDS = {"ap": "AlphabeticPoint", "np": "NumericPoint", "asp": "AlphabeticSubpoint", "nsp": "NumericSubpoint"}

def el_json(e):
    out = {"identifier": e["id"]} if e["id"] else {}
    if "ct" in e:
        out["body"] = {"intro": e["x"], "children": {KIDS[e["ct"]]: [el_json(c) for c in e["ch"]]}}
        if e["wu"]:
            out["body"]["wrap_up"] = e["wu"]
    else:
        out["body"] = e["x"]
    return out

def make(i, e):
    """what the real code is given, and what must come out"""
    steps = []
    for s, x in zip(i["steps"], e["x"]):
        o = {"do": s["do"]}
        if s["arts"]:
            o["ch"] = [{"Article": {"identifier": a["id"], "children": [el_json(p) for p in a["ps"]]}} for a in x]
        steps.append(o)
    act = {"identifier": {"year": 2020, "number": 5}, "subject": "s", "preamble": "", "publication_date": "2020-01-02", "children": []}
    return {"act": act, "known": e["known"] or {}, "steps": steps}, {"r": "ok", "v": e["v"]}

def histories(r, n):
    return [history(r, 0.05 if r.random() < 0.15 else 0.0) for _ in range(n)]

# ------------------------------------------------------------------------------------------------ operative phrases

def kw(o, s, p=" "):
    return {"k": "kw", "o": o, "p": p, "s": s}

def pick(r, o, *l):
    return kw(o, r.choice(l))

ORD = ["Első", "Második", "Harmadik", "Ötödik", "Tizenkettedik", "ELSŐ", "HARMADIK", "TIZEDIK"]
ORDL = ["első", "második", "harmadik", "nyolcadik", "tizenötödik", "huszadik", "harmincadik", "kilencvenedik"]
TITLES = ["Értelmező rendelkezések", "Záró rész", "Az eljárás", "A „belső” ügy", "Fogalmak", "A díj"]
RAW = ["Értelmező rendelkezések", "Hatály", "Általános elv és hatály", "Záró szó"]
MONTHS = ["január", "február", "március", "április", "május", "június", "július", "augusztus", "szeptember", "október", "november", "december"]
FOLLOW = ["a következő", "az alábbi"]
QUOTES = ["x", "az 5. §", "szó, szó", "régi „belső” szöveg", "2012. évi I. törvény", "a", "Ő–Ű", "(1) bekezdés a) pont"]

def lead(r):
    return dict(pick(r, "az", "A", "Az", "A", "a"), p="")

def title_words(r):
    return [{"k": "w", "p": " ", "s": r.choice(["díjakról szóló", "a hatályról szóló", "kérelem-elbírálásról és egyebekről szóló", "Őrületről szóló"])}] if r.random() < 0.5 else []

def subject(r, known, act_only=False):
    """the act a sentence is about"""
    out = []
    if not act_only and r.random() < 0.12:
        out += [{"k": "ab", "p": " ", "s": r.choice(known)} if known and r.random() < 0.5 else act(r, ab=0.0), pick(r, "notact", "hatálybalépéséről", "módosításáról", "összefüggő", "hatálybalépésével")]
        out += [{"k": "w", "p": " ", "s": r.choice(["szóló", "és másról szóló"])}]
    out += title_words(r)
    out.append({"k": "ab", "p": " ", "s": r.choice(known)} if known and r.random() < 0.5 else act(r, ab=0.2))
    return out

def structural(r, case="e", to=0.15, kinds=("chapter", "part", "title", "sub", "subt", "raw"), book=0.2):
    t = r.choice(kinds)
    a = {"k": "str", "p": " ", "t": t, "bk": "", "bsuf": "", "id": "", "e": "", "d": "", "to": ""}
    if r.random() < book:
        a["bk"], a["bsuf"] = r.choice(ORD), r.choice(["Könyv", "könyvének", "Könyve"])
    rom = gi.roman(r.randint(1, 40)) + (r.choice(["/A", "/B", "/Z"]) if r.random() < 0.2 else "")
    if t == "chapter":
        a["id"], a["suf"] = rom, {"e": r.choice(["Fejezete", "fejezete", "Fejezet", "FEJEZET"]), "vel": r.choice(["Fejezettel", "fejezettel"])}[case]
    elif t == "title":
        a["id"], a["suf"] = rom, {"e": r.choice(["Címe", "címe", "Cím"]), "vel": "Címmel"}[case]
    elif t == "part":
        a["id"], a["suf"] = r.choice(ORD), {"e": r.choice(["Rész", "Része", "RÉSZ"]), "vel": "Résszel"}[case]
    elif t == "sub":
        a["id"] = num(r) + (r.choice(["/A", "/B", "A"]) if r.random() < 0.25 else "")
        if r.random() < 0.15:
            a["e"], a["d"] = num(r), r.choice(DASH)
        a["suf"] = {"e": r.choice(["alcíme", "alcím", "alcímének"]), "vel": "alcímmel"}[case]
    else:
        a["id"] = r.choice(TITLES if t == "subt" else RAW)
        a["suf"] = (r.choice(["", "című "]) if t == "subt" else "") + {"e": r.choice(["alcíme", "alcímében"]), "vel": "alcímmel"}[case]
    if r.random() < to and case == "e":
        a["to"] = r.choice(["címe", "címében", "címei"] if t != "raw" else ["címe", "címében"])
        a["suf"] = {"chapter": "Fejezet", "title": "Cím", "part": "Rész"}.get(t, "alcím")
    return a

def single(r):
    a = ref(r, chain=["art"], many=0.0)
    return a

def relative(r):
    o = r.choice([("before", "megelőző"), ("before", "megelőzően"), ("before", "előtti"), ("after", "követően"), ("after", "követő")])
    return ([pick(r, "az", "a", "az")] if r.random() < 0.5 else []) + [single(r), kw(*o)]

def amend(r):
    return pick(r, "amend", *[f"helyébe {f} {x}" for f in FOLLOW for x in ("rendelkezés lép", "rendelkezések lépnek")], *[f + " szöveggel lép hatályba" for f in FOLLOW], *[f + " szerint módosul" for f in FOLLOW])

def ins(r):
    return pick(r, "ins", *FOLLOW, "és a következő", "következő", "ezzel egyidejűleg az alábbi", "valamint a következő")

def insend(r):
    return pick(r, "insend", "egészül ki", "egészül ki", "kiegészülve lép hatályba")

COLON = {"k": "w", "p": "", "s": ":"}

def sub_of(r, r0=None):
    """references of an insertion"""
    z = r.random()
    if z < 0.15:
        return [ins(r), ref(r, chain=["art", "para"], many=0.15)]
    if z < 0.35:
        two = [{"k": "sep", "p": "", "s": r.choice(SEP)}, ref(r, chain=["art"])] if r.random() < 0.4 else []
        return [ins(r), ref(r, chain=["art"])] + two
    pre = [pick(r, "az", "a", "az")] if r.random() < 0.3 else []
    if z < 0.6:
        head = r.choice([pre + [ref(r, chain=["art"], many=0.1)], [kw("thisart", "a §")], []])
        return head + [ins(r), ref(r, chain=["para"])]
    if z < 0.82:
        head = r.choice([pre + [ref(r, chain=r.choice([["art"], ["art", "para"]]), many=0.05)], [kw("thisart", "a §")], [kw("thispara", "a bekezdés")], []])
        return head + [ins(r), ref(r, chain=[r.choice(["ap", "np"])])]
    return pre + [ref(r, chain=r.choice([["art", "ap"], ["art", "para", "ap"], ["art", "para", "np"], ["art", "np"]]), many=0.05), ins(r), ref(r, chain=[r.choice(["asp", "nsp"])])]

def block(r, known):
    out = [lead(r)] + subject(r, known)
    if r.random() < 0.25:
        out.append(structural(r, to=0.04))
    z = r.random()
    if z < 0.4:
        return out + [ref(r, many=0.3), amend(r), COLON]
    if z < 0.7:
        return out + sub_of(r) + [insend(r), COLON]
    out += [ref(r, chain=r.choice([["art"], ["art", "para"], ["art", "para", "ap"]]), many=0.1), amend(r)]
    if r.random() < 0.8:
        out.append(kw("link", r.choice([",", ", és", ", valamint", ", és ezzel egyidejűleg"]), ""))
    if r.random() < 0.35:
        out += ([pick(r, "az", "a", "az")] if r.random() < 0.8 else []) + [next((dict(a) for a in out if a["k"] in ("act", "ab")), None)]
        out[-1].update({"ab": ""} if out[-1]["k"] == "act" else {})
        if r.random() < 0.3:
            out.append(structural(r, to=0))
    return out + sub_of(r) + [insend(r), COLON]

def subtitle(r, known):
    out = [lead(r)] + subject(r, known)
    z = r.random()
    if r.random() < 0.35:
        out.append(structural(r, to=0.05, kinds=("chapter", "part", "title", "chapter", "sub")))
    if r.random() < 0.35:
        out += relative(r)
    inst = "mel" if z > 0.6 else r.choice(["e", "", "ének"])
    tok = pick(r, "subtitle", "alcím" + inst, "alcím" + inst, "alcím cím" + inst, "alcím-cím" + inst)
    z2 = r.random()
    if z2 < 0.35:
        s = [single(r), pick(r, "andthe", "és az azt megelőző", "és a megelőző", "és az azokat megelőző", "és a §-t megelőző"), tok]
    else:
        s = [tok] if z2 < 0.6 else [structural(r, "vel" if z > 0.6 else "e", to=0.1, kinds=("sub", "subt"), book=0.05)]
        if r.random() < 0.4:
            s += [kw("and", "és"), single(r)]
    if z > 0.6:
        return out + [ins(r)] + s + [insend(r), COLON]
    return out + s + [amend(r) if r.random() < 0.5 else any_amend(r) if r.random() < 0.4 else pick(r, "amendsub", *[f"helyébe {f} {x}" for f in FOLLOW for x in (
        "rendelkezés és alcím lép", "alcím és rendelkezés lép", "alcím és rendelkezés lépnek", "rendelkezés és alcím cím lépnek", "alcím cím és rendelkezés lépnek", "alcím lépnek")]), COLON]

def any_amend(r):
    return pick(r, "amendany", *[f"helyébe {f} {x}" for f in FOLLOW for x in ("alcím lép", "alcím cím lép")])

def struct_amend(r, known):
    out = [lead(r)] + subject(r, known)
    if r.random() < 0.15:
        out += relative(r)
    z = r.random()
    if z < 0.5:
        if r.random() < 0.35:
            out.append(structural(r, to=0.05, kinds=("chapter", "part", "title", "sub")))
        out.append(structural(r, to=0.3))
        return out + [amend(r) if r.random() < 0.4 else any_amend(r) if r.random() < 0.3 else pick(r, "amendstr", *[f"helyébe {f} {x}lép" for f in FOLLOW for x in ("cím ", "fejezet ", "Fejezet ", "rész ", "")]), COLON]
    if r.random() < 0.5:
        out.append(structural(r, to=0.05, kinds=("chapter", "part", "title", "sub")))
    elif r.random() < 0.4:
        out.append(dict(kw("book", "", " "), id=r.choice(ORD)))
        out[-1]["s"] = out[-1]["id"] + " " + r.choice(["Könyve", "könyv", "KÖNYV"])
    return out + [ins(r), structural(r, "vel", kinds=("chapter", "part", "title", "sub", "subt")), insend(r), COLON]

def subs(r):
    n = r.choice([2, 2, 3])
    ps = [{"s": num(r) + (r.choice(["/A", "/B", "C"]) if r.random() < 0.2 else ""), "e": num(r) if r.random() < 0.25 else "", "d": r.choice(DASH), "sep": "" if q == 0 else r.choice(SEP) + " "} for q in range(n)]
    return {"k": "subs", "p": " ", "ps": ps, "suf": r.choice(["alcíme", "alcím", "alcímében"])}

def att(r):
    return {"k": "att", "p": " ", "s": r.choice(["1. melléklet", "2. és 3. melléklete", "1. számú melléklete", "4–5. mellékletében"])}

def targets(r, n, whole=False):
    """what is amended or repealed"""
    out, fresh = [], True
    for q in range(n):
        if q and (r.random() < 0.9 or out[-1]["k"] == "att"):
            out.append({"k": "sep", "p": "", "s": r.choice(SEP)})
        z = r.random()
        if z < 0.12 and (not whole or r.random() < 0.2):
            out += [single(r), pick(r, "arttitle", "címe", "címében", "szakaszcíme", "szakaszcímében")]
        elif z < 0.22:
            if r.random() < 0.3:
                out.append(structural(r, to=0.03, kinds=("chapter", "part", "title", "sub")))
            out += relative(r) + [pick(r, "subtitle", "alcím", "alcím címe", "alcímben")]
            fresh = True
            continue
        elif z < 0.36:
            if r.random() < 0.25:
                out.append(structural(r, to=0.05, kinds=("chapter", "part", "title", "sub")))
            out.append(structural(r, to=0.2))
        elif z < 0.44:
            out.append(subs(r))
        elif z < 0.5:
            out.append(att(r))
        else:
            out.append(ref(r, chain=None if not fresh or r.random() < 0.1 else r.choice([c for c in CHAINS if c[0] == "art"])))
            fresh = False
            if r.random() < (0.04 if whole else 0.25):
                out.append(pick(r, "intro", "nyitó szövegrésze", "nyitó szövegrészében") if r.random() < 0.5 else pick(r, "wrapup", "záró szövegrésze", "záró szövegrészében"))
    return out

def quote(r):
    return {"k": "q", "p": " ", "s": r.choice(QUOTES)}

def replacement(r, last):
    out = ([pick(r, "az", "a", "az")] if r.random() < 0.9 else []) + [quote(r), pick(r, "instead", "szövegrész helyébe", "szöveg helyébe", "szövegrészek helyett")]
    out += ([pick(r, "az", "a", "az")] if r.random() < 0.9 else []) + [quote(r)]
    if last or r.random() < 0.85:
        out.append(pick(r, "text", "szöveg", "szövegrész", "szövegek"))
    return out

def text_amend(r, known):
    """head, middle, end"""
    mid = targets(r, r.choice([1, 1, 2, 3]))
    n = r.choice([1, 1, 2, 3])
    for q in range(n):
        if q:
            mid.append({"k": "sep", "p": "", "s": r.choice(SEP)})
        mid += replacement(r, q == n - 1)
    return [lead(r)] + subject(r, known), mid, [pick(r, "lep", "lép", "lép", "lép hatályba"), Dot]

Dot = {"k": "w", "p": "", "s": "."}

def repeal(r, known):
    head = [dict(pick(r, "gone", "Hatályát veszti", "Nem lép hatályba", "Hatályát veszíti"), p=""), pick(r, "az", "a", "az")] + subject(r, known)
    mid = targets(r, r.choice([0, 1, 1, 2, 3]), whole=r.random() < 0.7)
    n = r.choice([0, 0, 1, 2])
    for q in range(n):
        if q:
            mid.append({"k": "sep", "p": "", "s": r.choice(SEP)})
        mid += ([pick(r, "az", "a", "az")] if r.random() < 0.9 else []) + [quote(r)] + ([pick(r, "text", "szövegrész", "szövegrésze", "szöveg")] if r.random() < 0.8 else [])
    return head, mid, [Dot] if r.random() < 0.7 else []

def day(r, only_date=False, bad=0.04):
    z = r.random()
    if z < 0.5 or only_date:
        d = r.randint(1, 28) if r.random() > bad else r.choice([0, 29, 30, 31, 32])
        return {"k": "day", "p": " ", "t": "date", "y": str(r.randint(1990, 2040)), "m": r.choice(MONTHS), "n": str(d), "suf": r.choice(["-án", "-jén", "-én", ". napján"]), "lead": ""}
    ld = r.choice(["a kihirdetését", "e törvény kihirdetését", "a kihirdetést", "kihirdetését"])
    if z < 0.75:
        return {"k": "day", "p": " ", "t": "days", "y": "", "m": "", "n": r.choice(["", "", r.choice(ORDL), num(r) + ".", "365.", "70000." if r.random() < bad else "8."]), "suf": "", "lead": ld}
    return {"k": "day", "p": " ", "t": "dim", "y": "", "m": r.choice(["", r.choice(ORDL[:6])]), "n": r.choice([r.choice(ORDL), num(r) + "."]), "suf": "", "lead": ld}

def force(r, known):
    out = [dict(pick(r, "thisact", "Ez a törvény", "E törvény"), p="") if r.random() < 0.55 else dict(pick(r, "az", "A", "Az"), p="")]
    if r.random() < 0.3:
        dash = r.random() < 0.7
        out += ([pick(r, "dash", "–", "-")] if dash else []) + [kw("az", "a"), ref(r), pick(r, "except", "szerinti kivétellel", "foglaltak kivételével", "foglalt kivétellel")] + ([pick(r, "dash", "–", "-")] if dash else [])
    mid = []
    if out[0]["o"] == "az" or r.random() < 0.3:
        for q in range(r.choice([1, 1, 2, 3])):
            if q:
                mid.append({"k": "sep", "p": "", "s": r.choice(SEP) + r.choice(["", " a", " az"])})
            z = r.random()
            mid.append(ref(r) if z < 0.6 else structural(r, to=0.1, kinds=("chapter", "part", "title", "sub", "subt")) if z < 0.8 else subs(r) if z < 0.9 else att(r))
    d = day(r)
    end = ([pick(r, "az", "a")] if not d["lead"].startswith(("a ", "e ")) and r.random() < 0.4 else []) + [d, kw("inforce", "lép hatályba")]
    if r.random() < 0.2:
        end += [kw("andact", r.choice([", és", ", és ez a törvény", ", és e törvény"]), ""), day(r, True), pick(r, "expires", "hatályát veszti", "a hatályát veszti")]
    return out, mid, end + [Dot]

def spoil(r, as_):
    """a sentence that is not quite a phrase"""
    as_ = [dict(a) for a in as_]
    for _ in range(r.choice([1, 1, 2])):
        q = r.randrange(1, len(as_))
        if any(a.get("o") == "link" for a in as_[q:q + 2]):
            continue
        if as_[q]["k"] in ("kw", "w") or (as_[q]["k"] in ("str", "att", "subs", "day") and r.random() < 0.5):
            if r.random() < 0.6:
                del as_[q]
            else:
                as_[q] = {"k": "w", "p": as_[q]["p"] or " ", "s": "szó"}
        if len(as_) < 3:
            break
    for q in range(1, len(as_)):
        # after a reference a dash would make a range
        if as_[q].get("o") == "dash" and as_[q - 1]["k"] == "ref":
            as_[q] = {"k": "w", "p": " ", "s": "szó"}
    # two separators would be one
    return [a for q, a in enumerate(as_) if q == 0 or a["k"] != "sep" or as_[q - 1]["k"] != "sep"]

def phrase_element(r, i, known):
    z = r.random()
    if z < 0.4:
        as_ = r.choice([block, block, subtitle, struct_amend])(r, known)
        head, mid, end = as_, [], []
    else:
        kind = r.choice([text_amend, repeal, force])
        head, mid, end = kind(r, known)
    if mid and r.random() < 0.45:
        # the same, in points
        n = r.choice([1, 2, 3])
        mids = [mid] + [r.choice([k for k in (kind,)])(r, known)[1] for _ in range(n - 1)]
        mids = [m for m in mids if m and not (kind is force and m[0]["k"] == "sep")]
        ch = []
        for q, m in enumerate(mids):
            m = [dict(a) for a in m]
            m[0]["p"] = ""
            ch.append({"id": "abc"[q], "as": m, "junk": r.choice(JUNK[:6] + [", valamint", " vagy", ",;"])})
            cuts = [k for k in range(1, len(m)) if m[k]["k"] != "sep" and m[k - 1]["k"] != "sep" and m[k - 1].get("o") != "az"]
            if cuts and r.random() < 0.3:
                # the end of it in subpoints
                k = r.choice(cuts)
                k2 = r.choice([c for c in cuts if c > k] + [len(m)])
                tail = [dict(m[k], p="")] + m[k + 1:k2]
                ch[-1].update({"as": m[:k], "ct": "asp", "wu": [dict(a, p="" if j == 0 else a["p"]) for j, a in enumerate(tidy(m[k2:]))], "ch": [{"id": "ab"[j], "as": [dict(a) for a in tail], "junk": r.choice(JUNK[:6])} for j in range(r.choice([1, 2]))]})
                ch[-1]["junk"] = ""
        wu = [dict(a) for a in end]
        if wu:
            wu[0]["p"] = ""
        if wu and wu[0] == Dot:
            wu = []
        return {"id": i, "as": [dict(a) for a in head], "junk": "", "ct": "ap", "ch": ch, "wu": wu}
    as_ = head + mid + end
    if r.random() < 0.2 and len(as_) > 3:
        as_ = spoil(r, as_)
    if r.random() < 0.08:
        # all of it above points
        return {"id": i, "as": [dict(a) for a in as_], "junk": "", "ct": "ap", "wu": [], "ch": [{"id": j, "as": [{"k": "w", "p": "", "s": r.choice(["egy", "más szó", "rend"])}], "junk": ""} for j in "ab"]}
    return {"id": i, "as": [dict(a) for a in as_], "junk": ""}

def tidy(as_):
    """an article after a separator belongs to it"""
    out = []
    for a in as_:
        if a["k"] == "kw" and a["o"] == "az" and out and out[-1]["k"] == "sep":
            if not out[-1]["s"].endswith((" a", " az")):
                out[-1] = dict(out[-1], s=out[-1]["s"] + " " + a["s"])
        else:
            out.append(a)
    return out

def phrase_history(r):
    known = [[a, r.randint(1990, 2020), r.randint(1, 200)] for a in r.sample(["Ptk.", "Kbt.", "Áht.", "Mt.", "Ákr."], r.choice([1, 2]))]
    names = [k[0] for k in known]
    ps = [settle(phrase_element(r, str(q + 1), names), names) for q in range(r.choice([1, 2, 3]))]
    for p in ps:
        for e in [p] + p.get("ch", []) + [d for c in p.get("ch", []) for d in c.get("ch", [])]:
            e["as"] = tidy(e["as"])
    if len(ps) == 1:
        ps[0]["id"] = ""
    return {"known": known, "steps": [{"do": "all", "arts": [{"id": "1", "ps": ps}]}]}

def phrases(r, n):
    return [phrase_history(r) for _ in range(n)]
