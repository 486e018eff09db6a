"""Histories of editing sessions."""
WORDS = ["r", "x", "y", "1. §", "(1) A törvény", "a) pont", "„idézet", "vége”", "szöveg és szöveg", "- kötőjel", "null", "1.", "a: b", "'a", "\"b", "# c", "yes", "„a”", "””", "[d]", "é"]

def raw(r, hi=10):
    n = r.randint(2, hi)
    pool = r.sample(WORDS, r.randint(1, 5))
    out = []
    for q in range(n):
        t = r.choice(pool + ["", ""])
        if t == "" and (q in (0, n - 1) or out[-1]["t"] == ""):
            t = r.choice(pool)
        out.append(dict(t=t, b=t != "" and r.random() < 0.15))
    return out

def histories(r, n):
    out = []
    for k in range(max(2, n // 60)):
        # a line that only lines far above tell from others
        deep = r.choice([9, 10, 11]) if k > 1 else 10 + k
        rw = [dict(t="x", b=False)] + [dict(t="r", b=False) for _ in range(deep + 4)]
        fl = ["   0 " + l["t"] for l in rw]
        fl[deep] = "   0 q"
        out.append(dict(raws=[rw, raw(r)], steps=[dict(op="edit", a=1, lines=fl, eol="\n", last=True), dict(op="read", a=1)]))
    for _ in range(max(4, n // 30)):
        # several changes among alike lines: some may leave a later one without anything to tell it by
        m = r.randint(4, 18)
        rw = [dict(t=r.choice(["x", "r", "1. §"]), b=False)] + [dict(t=r.choice(["r"] * 6 + ["x", "1. §"]), b=False) for _ in range(m)]
        ws = [l["t"] for l in rw]
        for p in r.sample(range(len(ws)), min(len(ws), r.randint(2, 6))):
            ws[p] = r.choice(["q", "q", "<BOLD>" + ws[p], "<BOLD>r", "<BOLD>q", "r", "x", "q<BOLD>"])
        fl = ["   0 " + t for t in ws]
        out.append(dict(raws=[rw, raw(r)], steps=[dict(op="edit", a=1, lines=fl, eol="\n", last=True), dict(op="read", a=1)]))
    for _ in range(max(2, n // 80)):
        # one change that could be recorded, and one that can not
        m = r.choice([13, 14, 16])
        rw = [dict(t="x", b=False)] + [dict(t="r", b=False) for _ in range(m + 2)]
        ws = [l["t"] for l in rw]
        ws[0], ws[r.randint(12, m)] = r.choice(["q", "", "<BOLD>x"]), r.choice(["q", ""])
        fl = ["   0 " + t for t in ws]
        out.append(dict(raws=[rw, raw(r)], steps=[dict(op="edit", a=1, lines=fl, eol="\n", last=True), dict(op="read", a=1)]))
    for _ in range(n):
        raws = [raw(r, r.choice([6, 10, 24])), raw(r)]
        cur = [[l["t"] for l in x] for x in raws]
        steps = []
        if r.random() < 0.3:
            steps.append(dict(op="read", a=r.choice([1, 2])))
        for _ in range(r.randint(1, 4)):
            a = r.choice([1, 1, 1, 2])
            new = list(cur[a - 1])
            for _ in range(r.choice([0, 1, 1, 1, 2, 3, 6])):
                p = r.randrange(len(new))
                t = r.choice(["", "", r.choice(new), r.choice(new), "q", r.choice(WORDS), new[p] + "x", "x" + new[p], new[p] + "<BOLD>", "<BOLD>" + r.choice(WORDS), "<BOLD>", "a <BOLD> b <BOLD>", new[p][:-1], "é", "új  szöveg"])
                new[p] = t.strip()
            def setline(t):
                k = r.random()
                pre = "   0 " if k < 0.8 else r.choice(["  -1 ", "12345", "ééééé", "     "])
                if t == "":
                    return r.choice([pre, pre.rstrip(), "", "   0", "   0     ", "\t", "é"])
                return pre + r.choice(["", "", "    ", "\t"]) + t + r.choice(["", "", "", " ", "\t "])
            fl = [setline(t) for t in new]
            k = r.random()
            if k < 0.04:
                fl.pop(r.randrange(len(fl)))
            elif k < 0.08:
                fl.insert(r.randint(0, len(fl)), "   0 új")
            last = r.random() < 0.9
            if fl and fl[-1] == "":
                last = True
            steps.append(dict(op="edit", a=a, lines=fl, eol=r.choice(["\n", "\n", "\n", "\r\n"]), last=last))
            steps.append(dict(op="read", a=a))
            if r.random() < 0.3:
                steps.append(dict(op="read", a=3 - a))
            if len(fl) == len(new):
                cur[a - 1] = [t.replace("<BOLD>", "").strip() for t in new]
        h = dict(raws=raws, steps=steps)
        if r.random() < 0.15:
            # corrections recorded for a text that has changed since
            pre = []
            for q in range(2):
                ts = [l["t"] for l in raws[q]] + ["régi", "x"]
                pre.append([dict(after=r.choice([[], [], [r.choice(ts)]]), old=r.choice(ts), new=r.choice(["", "q", "új", r.choice(ts)]), bold=r.random() < 0.2) for _ in range(r.choice([0, 1, 1, 2]))])
            h["pre"] = pre
        out.append(h)
    return out
