"""PDF pages as drawing programs over a set of fonts."""
def font(n, base="Times-Roman", kind="simple", enc="win", diff=(), tu=(), first=32, w=None, dw=500):
    return dict(n=n, base=base, kind=kind, enc=enc, diff=[list(d) for d in diff], tu=[list(t) for t in tu], first=first,
                w=w if w is not None else [250 if c == 32 else 500 for c in range(first, 256)], dw=dw)

COMMON = {"win": [132, 148, 160, 167, 193, 213, 219, 233, 245, 251, 255, 129, 147], "std": [167, 185, 186, 39, 96], "mac": [142, 164, 227, 211, 255], "none": [], "cid": [160, 167, 193, 337, 369, 8222, 8221, 245]}
STD = [c for c in range(161, 252) if c not in (164, 176, 180, 181, 190, 192, 197, 201, 204, 226, 228, 229, 230, 231, 236, 237, 238, 239, 240, 242, 243, 244, 246, 247) and not 209 <= c <= 224]
ALL = {"win": list(range(128, 256)), "std": STD, "mac": list(range(128, 256)), "none": [], "cid": list(range(160, 256)) + [336, 337, 368, 369, 8211, 8222, 8221]}
CODES = {k: COMMON[k] * 6 + ALL[k] for k in ALL}

def rand_font(r, n):
    kind = "cid" if r.random() < 0.25 else "simple"
    enc = r.choice(["win", "win", "std", "mac", "none"])
    base = r.choice(["Times-Roman", "Times-Bold", "ABCDEF+Futura-bold", "BOLDFACE", "Semibold", "Arial", "TimesBoldItalic", "Times-BoldItalic", "Boldface", "TimesboldCond", "BoLd"])
    ws = r.choice([0, 125, 250, 250, 500, 1000, 1500, 2000])
    first = r.choice([32] * 8 + [0, 60])
    w = [ws if c == 32 else r.choice([250, 500, 500, 750]) for c in range(first, r.choice([256] * 8 + [100]))]
    diff, tu = [], []
    used = set()
    for _ in range(r.choice([0, 0, 1, 3])):
        c = r.choice([65, 66, 67, 97, 98, 200, 32, 255])
        if c not in used:
            used.add(c)
            diff.append((c, r.choice(["A", "b", "Aacute", "eacute", "section", "ohungarumlaut", "quotedblbase", "quotedblright", "space", "g23", "nosuchglyph", "uhungarumlaut", "Ohungarumlaut", "udieresis", "endash", "bullet", "fi", "otilde", "hyphen", "a"])))
    if enc == "none" and not diff:
        diff.append((65, "A"))
    used = set()
    for _ in range(r.choice([0, 0, 1, 3])):
        c = r.choice([65, 66, 67, 97, 98, 200, 255] + ([1001, 1500, 256, 300, 999, 1000] if kind == "cid" else []))
        if c not in used:
            used.add(c)
            tu.append((c, r.choice(["x", "ő", "fi", "ff", "„", "ffil", " ", "z", "õ", "őű", "é-", "ũ", "Ũ", "ô", "Ô", "Û", "û", "Õ", "\u0007", "\t", "“", "\u00a0"])))
    if kind == "cid":
        diff, enc = [], "cid"
    return font(n, base, kind, enc, diff, tu, first, w, r.choice([250, 500, 1000]))

def known(f):
    # (what the encoding library makes of the hyphen in the standard encoding is not our business)
    cs = [] if f["enc"] == "none" else [c for c in range(33, 127) if (f["enc"], c) != ("std", 45)] + CODES[f["enc"]]
    return cs + [d[0] for d in f["diff"]] + [t[0] for t in f["tu"]]

def codes(r, f, lo=1, hi=4):
    ks = known(f)
    few = [c for c in (65, 66, 67, 97, 98, 200, 255, 32) if c in ks or (c == 32 and f["enc"] != "none")]
    out = []
    for _ in range(r.randint(lo, hi)):
        z = r.random()
        out.append(r.choice(few) if few and z < 0.5 else r.choice(ks))
    if r.random() < 0.003:
        out.append(r.choice([65, 200] + [55296] * (f["kind"] == "cid")))
    return out

def program(r, spec, vis, n, in_form=False, forms=()):
    ops, depth, mc, act = [], 0, 0, False
    fonts = {f["n"]: f for f in spec["fonts"]}
    names = dict(vis)
    cur, stack = None, []
    ops.append(["BT"])
    if not in_form or r.random() < 0.6:
        if r.random() < 0.97 and names:
            nm = r.choice(list(names))
            ops.append(["Tf", nm, r.choice([8, 8, 16])])
            cur = fonts[names[nm]]
        ops.append(["Td", r.randrange(0, 3000, 8), r.randrange(3000, 6000, 8)])
    if r.random() < 0.8:
        ops.append(["TL", r.choice([80, 96, 136])])
    for _ in range(n):
        z = r.random()
        if z < 0.36:
            f = cur or r.choice(spec["fonts"])
            if cur is None and not in_form and r.random() < 0.9:
                continue
            if in_form and cur is None:
                continue
            cs = codes(r, f)
            k = r.random()
            if k < 0.5:
                ops.append(["Tj", cs])
            elif k < 0.8:
                ops.append(["TJ", [["s", cs], ["n", r.choice([-2000, -500, -250, 250, 125, -125, 0, -5000, 4000])], ["s", codes(r, f)]][:r.randint(1, 3)]])
            elif k < 0.9:
                ops.append(["'", cs])
            else:
                ops.append(['"', r.choice([0, 8, 40]), r.choice([0, 8, -4]), cs])
        elif z < 0.46:
            nm = r.choice(list(names) + ["Nope"] * (r.random() < 0.05)) if names else None
            if nm:
                ops.append(["Tf", nm, r.choice([8, 8, 16, 24] * 4 + [0, -8])])
                cur = fonts.get(names.get(nm))
        elif z < 0.5 and spec["gs"]:
            g = r.choice(spec["gs"])
            ops.append(["gs", g["n"]])
            if g["f"]:
                cur = fonts[g["f"]]
        elif z < 0.6:
            ops.append(["Td", r.randrange(-400, 800, 4), r.choice([0, 0, -80, -96, -128, -136, -3, 3, -4, 4, -200])])
        elif z < 0.64:
            ops.append(["TD", r.randrange(0, 400, 4), r.choice([-80, -96, -130])])
        elif z < 0.68:
            ops.append(["Tm", r.choice([1, 1, 1, 2]), r.choice([0, 0, 0, 0, 1]), r.choice([0, 0, 0, 1]), r.choice([1, 1, 2]), r.randrange(0, 4000, 8), r.randrange(1000, 6000, 8)])
        elif z < 0.695:
            # another text object: only its place starts anew
            ops += [["ET"], ["BT"], ["Td", r.randrange(0, 3000, 8), r.randrange(3000, 6000, 8)]]
        elif z < 0.71:
            ops.append(["T*"])
        elif z < 0.74:
            ops.append(["TL", r.choice([80, 96, 136, 0])])
        elif z < 0.77:
            ops.append([r.choice(["Tc", "Tw"]), r.choice([0, 4, 8, 16, -4])])
        elif z < 0.79:
            ops.append(["Tz", r.choice([50, 100, 100, 200, 50, 100, 100, 200, 25, 0])])
        elif z < 0.815:
            ops.append(["Ts", r.choice([0, 0, 3, 4, 5, 24, -24])])
        elif z < 0.87:
            ops.append(["q"])
            stack.append(cur)
            depth += 1
        elif z < 0.93:
            if depth or (not in_form and r.random() < 0.03):
                ops.append(["Q"])
                depth = max(0, depth - 1)
                cur = stack.pop() if stack else None
        elif z < 0.955:
            if not act and r.random() < 0.5:
                ops.append(["ACT", r.choice(["őz", "x", "", "a nb", "abcd", "„q”x"])])
                act = True
                acts_mc = mc
                mc += 1
            else:
                ops.append(r.choice([["BMC", "P"], ["BDC", "P"], ["ACTP", "más"], ["ACTP", ""]]))
                mc += 1
        elif z < 0.975:
            if mc or (not in_form and r.random() < 0.02):
                ops.append(["EMC"])
                mc = max(0, mc - 1)
                if act and mc <= acts_mc:
                    act = False
        elif z < 0.99 and forms:
            ops.append(["Do", r.choice(list(forms))])
        elif z < 0.991 and not in_form:
            ops.append(["Do", "Nope"])
        else:
            ops.append(["re"])
    for _ in range(mc):
        ops.append(["EMC"])
    for _ in range(depth if in_form or r.random() < 0.5 else 0):
        ops.append(["Q"])
    ops.append(["ET"])
    return ops

def programs(r, n, size=(4, 22)):
    out = []
    while len(out) < n:
        spec = dict(crop=r.choice([[0, 0, 8000, 8000], [0, 0, 8000, 8000], [0, 0, 8000, 6016], [400, 800, 3000, 5000]]), gs=[], forms=[], pages=[])
        spec["fonts"] = [rand_font(r, f"f{k}") for k in range(r.randint(1, 4))]
        fn = [f["n"] for f in spec["fonts"]]
        spec["gs"] = [dict(n=f"g{k}", f=r.choice(fn + [""]), s=r.choice([8, 16, 8, 16, 8, 16, 0, -8])) for k in range(r.choice([0, 0, 1, 2]))]
        def vis():
            # the same resource name stands for different fonts on different pages
            return [[nm, r.choice(fn)] for nm in ["R", "S", "T"][:r.randint(1, 3)]]
        narrow = all(f["kind"] != "cid" for f in spec["fonts"])
        if r.random() < 0.4:
            v = vis()
            spec["forms"].append(dict(n="X0", own=True, vis=v, ops=program(r, spec, v, r.randint(1, 5), True)))
            if r.random() < 0.5:
                v = vis()
                spec["forms"].append(dict(n="X1", own=True, vis=v, ops=program(r, spec, v, r.randint(1, 5), True, ["X0"])))
        if r.random() < 0.15 and narrow:
            # a form that names fonts it has not got, or that uses those of where it is drawn
            spec["forms"].append(dict(n="X2", own=r.random() < 0.5, vis=[], ops=[["BT"], ["Td", r.randrange(0, 800, 8), r.randrange(3000, 6000, 8)]] + r.choice([[["Tf", r.choice("RST"), 8]], [], []]) + [["Tj", [65, 66]], ["ET"]]))
        if r.random() < 0.01:
            spec["fonts"].append(font("long", kind=r.choice(["cid", "simple"]), enc="cid"))
            if spec["fonts"][-1]["kind"] == "simple":
                spec["fonts"][-1]["enc"] = "win"
            k = r.choice([254, 255, 256, 257, 300, 520])
            spec["pages"].append(dict(vis=[["R", "long"]], ops=[["BT"], ["Tf", "R", 8], ["Td", 80, 4000], ["Tz", 25], ["Tj", [r.choice([65, 97, 233, 32]) for _ in range(k)]], ["ET"]]))
        if r.random() < 0.01:
            # much said in place of what is drawn
            spec["fonts"].append(font("even"))
            spec["pages"].append(dict(vis=[["R", "even"]], ops=[["BT"], ["Tf", "R", 8], ["Td", 80, 4000], ["ACT", "ezt egy hosszabb írással mondjuk" * r.choice([1, 2, 4])], ["Tj", [65] * 32], ["EMC"], ["ET"]]))
        for _ in range(r.choice([1, 1, 2, 3])):
            v = vis()
            spec["pages"].append(dict(vis=v, ops=program(r, spec, v, r.randint(*size), False, [f["n"] for f in spec["forms"]])))
            if r.random() < 0.1:
                spec["pages"][-1]["split"] = True
        if r.random() < 0.02:
            spec["pages"].insert(r.randrange(len(spec["pages"]) + 1), dict(vis=vis(), ops=[]))
        out.append(spec)
    return out

WORDS = ["A", "törvény", "„idézett", "szöveg”", "1.", "§", "(1)", "a)", "m2", "x", "bekezdés", "fi", "„", "”", "“ab", "a“b", "“", "szó-", "-", "szó\u00ad", "\u00ad", "…", "\u00a0x", "¬", "el-", "–"]
WIN = {c: ord(c) for c in map(chr, range(33, 127))}
WIN.update({"\u00ad": 173, "…": 133, "\u00a0": 160, "¬": 172, "“": 147, "–": 150, "„": 132, "”": 148, "§": 167, "é": 233, "ö": 246, "ö": 246, "ő": 245, "ű": 251, "Á": 193, "á": 225})

def layouts(r, n):
    """Words placed one by one, mostly along lines, around the distances that decide."""
    out = []
    while len(out) < n:
        fonts = [font("f0", "Times-Roman"), font("f1", "Times-Bold"), font("f2", "Arial", w=[500 if c == 32 else 250 if c % 3 == 0 else 750 for c in range(32, 256)])]
        vis = [["R", "f0"], ["B", "f1"], ["A", "f2"]]
        pages = []
        for _ in range(r.choice([1, 1, 1, 2])):
            chunks, y = [], r.randrange(4000, 6000)
            for _ in range(r.randint(1, 6)):
                x = r.randrange(400, 1200, r.choice([1, 4, 8]))
                drift = 0
                for _ in range(r.randint(1, 6)):
                    nm, size = r.choice([("R", 8), ("R", 8), ("R", 8), ("B", 8), ("A", 8), ("R", 16), ("B", 16)])
                    f = fonts[[v[0] for v in vis].index(nm)]
                    word = r.choice(WORDS)
                    cs = [WIN[c] for c in word if c in WIN]
                    if r.random() < 0.15:
                        cs = cs + [32] + [WIN[c] for c in r.choice(WORDS) if c in WIN]
                    if not cs:
                        continue
                    dy = r.choice([0, 0, 0, 0, 1, 3, 4, 5, -1, -3, -4])
                    drift += r.choice([0, 0, 0, 1, 2])
                    chunks.append((nm, size, x, y - drift + dy, cs))
                    w = sum(f["w"][c - 32] for c in cs) * size * 8 // 1000
                    sp = f["w"][0] * size * 8 // 1000
                    x += w + r.choice([0, 0, sp // 2, sp // 2 + 1, sp // 2 - 1, sp, sp * 3, 1, -1])
                y -= r.choice([80, 96, 96, 104, 127, 128, 129, 130, 136, 200, 3, 4, 5, 8])
            if r.random() < 0.6:
                r.shuffle(chunks)
            ops = [["BT"]]
            for nm, size, x, yy, cs in chunks:
                ops += [["Tf", nm, size], ["Tm", 1, 0, 0, 1, x, yy], ["Tj", cs]]
            pages.append(dict(vis=vis, ops=ops + [["ET"]]))
        if r.random() < 0.1:
            # around the edges of the usual boxes
            ops = pages[0]["ops"]
            for _ in range(3):
                ops[-1:-1] = [["Tm", 1, 0, 0, 1, r.choice([0, 1, 8, 400, 7999, 8000, 8001, 9000, -1, -8]), r.choice([0, 1, -1, 8, 400, 4000, 5800, 6015, 6016, 6017, 6100, 7999, 8000, 8001])], ["Tj", [65]]]
        crop = r.choice([[0, 0, 8000, 8000]] * 2 + [[0, 0, 8000, 6016]] + [[r.randrange(300, 900), r.randrange(3000, 4500), r.randrange(900, 1600), r.randrange(4500, 6000)]])
        out.append(dict(crop=crop, fonts=fonts, gs=[], forms=[], pages=pages))
    return out
