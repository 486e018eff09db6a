"""Random worlds and histories of runs of the command line tool."""
def roman(n):
    out = ""
    for v, s in [(1000, "M"), (900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")]:
        while n >= v:
            n -= v
            out += s
    return out

def notation(r, a):
    y, n = a
    return r.choice([f"{y}/{n}", f"{y}/{n}", f"{y}. évi {roman(n)}. törvény", f"{y}-{n}", f"{y}_{n}"])

def world(r):
    issues, acts = [], []
    for _ in range(r.randint(1, 4)):
        y = r.choice([2009, 2010, 2011, 2011])
        n = r.choice([1, 2, 9, 10, 71, 100, 123])
        if any(i["y"] == y and i["n"] == n for i in issues):
            continue
        own = []
        for _ in range(r.choice([0, 1, 2, 2, 3])):
            a = (y, r.choice([1, 2, 4, 9, 10, 19, 40, 80, 99, 144]))
            if a in acts:
                continue
            acts.append(a)
            own.append(dict(y=a[0], n=a[1], bad=[r.choice("qqssccee") for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3]))], stuck=r.random() < 0.08))
        st = "ok" if r.random() < 0.7 else r.choice(["none", "junk", "empty", "cut", "nodate"])
        issues.append(dict(y=y, n=n, at="alt" if r.random() < 0.12 else "cache", st=st, acts=own))
    rows = []
    for i in issues:
        for a in i["acts"]:
            if r.random() < 0.93:
                j = i if r.random() < 0.92 else r.choice(issues)
                rows.append(dict(i=f"{j['y']}/{j['n']}", a=notation(r, (a["y"], a["n"]))))
    for _ in range(r.choice([0, 0, 1, 2])):      # other acts, and later rows of the same
        a = r.choice(acts + [(2011, 7), (2010, 50)])
        rows.append(dict(i=r.choice(["2011/71", "2012/3"]), a=notation(r, a)))
    if r.random() < 0.2:
        r.shuffle(rows)
    st = "ok"
    if r.random() < 0.06:
        st = r.choice(["none", "bad"])
    elif r.random() < 0.03:
        rows.insert(r.randint(0, len(rows)), dict(i=r.choice(["2011", "2011/1/2", "x/1"]), a="2011/1"))
    return dict(issues=issues, csv=dict(st=st, rows=rows)), acts

def corrected(r):
    """An act whose lines are corrected in a first run, then read at any step."""
    bad = [r.choice("eeqsc") for _ in range(r.randint(1, 3))]
    w = dict(issues=[dict(y=2011, n=71, at="cache", st="ok", acts=[dict(y=2011, n=80, bad=bad, stuck=False)])], csv=dict(st="ok", rows=[dict(i="2011/71", a="2011/80")]))
    one = dict(ids=["2011/80"], mk=False, step="", fmt="yaml", w=0, out="dir", cache="", ia=False, ans=[], plan=[])
    runs = [dict(one, ia=True, ans=["y"] * r.randint(1, 3) + ["n"], plan=["fix"] * 3)]
    for _ in range(2):
        runs.append(dict(one, step=r.choice(["act-lines", "act-lines", "structure", ""]), fmt=r.choice(["plain", "test-plain", "json", "yaml", "colored"]), mk=False, out=r.choice(["dir", ""])))
    return dict(w=w, runs=runs)

def histories(r, n):
    out = [corrected(r) for _ in range(n // 20)]
    for _ in range(n):
        w, acts = world(r)
        runs = []
        known = [f"{i['y']}/{i['n']}" for i in w["issues"]]
        listed = [row["a"] for row in w["csv"]["rows"]]
        for _ in range(r.choice([1, 2, 3, 3])):
            mk = r.random() < 0.4
            if mk:
                pool = known * 3 + ["2011/5"]
            else:
                pool = listed * 4 + [notation(r, a) for a in acts] + ["2011/7"]
            k = r.choice([1, 1, 2, 3, 4])
            ids = [r.choice(pool) for _ in range(k)]
            if r.random() < 0.04:
                ids = [r.choice(pool) for _ in range(r.randint(15, 40))]
                if r.random() < 0.5:     # one issue many times, another one at the end
                    ids = [ids[0]] * (len(ids) - 1) + [ids[-1]]
            if r.random() < 0.12 and acts:
                near = [(i["y"], i["n"]) for i in w["issues"]] if mk else acts
                ids.append(r.choice([f"{a[0] % 100}/{a[1]}" for a in near] + [f"{a[0] + d}/{a[1]}" for a in near for d in (1000, -1000, 100)]))
            if r.random() < 0.5:
                ids = list(dict.fromkeys(ids))
            if r.random() < 0.05:
                ids.insert(r.randint(0, len(ids)), r.choice(["rossz", "2011", "2011/", "2011. évi törvény", "", "2011.71", "2011/71/", "2011/71.", "2011 71", "2011/7a"]))
            ia = r.random() < 0.4
            runs.append(dict(ids=ids, mk=mk, step=r.choice(["", "", "pdf-lines", "act-lines", "structure", "semantic"] + (["minden"] if r.random() < 0.1 else [])),
                             fmt=r.choice(["", "plain", "txt", "test-plain", "colored", "color", "json", "yaml", "yml"] + (["xml"] if r.random() < 0.1 else [])),
                             w=r.choice([0, 0, 20, 60, 200]), out=r.choice(["dir"] * 5 + ["", "", "missing"] if r.random() < 0.5 else ["dir", ""]),
                             cache="alt" if r.random() < 0.1 else r.choice(["", "cache"]), ia=ia,
                             ans=[r.choice(["y", "y", "y", "y", "Y", "yes", "", "n", "no", "x", "ny", "may", "ney"]) for _ in range(r.choice([0, 1, 2, 3, 5]))] if ia else [],
                             plan=[r.choice(["fix", "fix", "fix", "none", "cut"]) for _ in range(r.choice([1, 2, 3, 5]))] if ia else []))
        out.append(dict(w=w, runs=runs))
    return out
