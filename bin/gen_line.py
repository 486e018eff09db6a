"""Random lines, cut-and-join programs, line sequences to be joined, quoting sequences."""
import re
CHARS = "abcdeéőű §(1)-„”“.–A"

def rline(r, lo=0, hi=8):
    n = r.randint(lo, hi)
    bolds = r.choice([0, 0, 1, None, None])
    ps = []
    for q in range(n):
        dx = r.choice([80, 80, 81, 7, 160, r.randint(1, 1600)]) if q else r.choice([80, 400, 401, 412, 415, 416, 417, 384, 385, 1000, r.randint(0, 6400)])
        b = bolds if bolds is not None else r.choice([0, 1, 1])
        ps.append([dx, r.choice(CHARS), b])
    return {"o": "line", "p": ps, "j": r.random() < 0.5}

def lprogs(r, n):
    out = []
    for _ in range(n):
        p, lens = [], []
        for q in range(r.randint(1, 3)):
            if r.random() < 0.15:
                s = "".join(r.choice(["a", "é", " ", "   ", "<BOLD>", "<NJ>", "<NJ", "<BOLD", ">", "§ ", "„x”", "-"]) for _ in range(r.randint(0, 6)))
                p.append({"o": "text", "s": s, "w": 80})
                lens.append(len(re.sub(" +", " ", s.replace("<BOLD>", "  ").replace("<NJ>", "  ").lstrip(" "))))
                continue
            l = rline(r)
            p.append(l)
            lens.append(len(l["p"]))
        for q in range(r.randint(1, 5)):
            k = r.random()
            a = r.randrange(len(lens))
            if k < 0.45:
                f = r.randint(-lens[a] - 2, lens[a] + 2)
                t = [] if r.random() < 0.4 else [r.randint(-lens[a] - 2, lens[a] + 2)]
                p.append({"o": "slice", "r": a + 1, "from": f, "to": t})
                L = lens[a]
                ff = max(0, min(L, f if f >= 0 else L + f))
                tt = L if not t else max(0, min(L, t[0] if t[0] >= 0 else L + t[0]))
                lens.append(max(0, tt - ff))
            elif k < 0.6:
                f = r.randint(0, lens[a])
                t = [] if r.random() < 0.4 else [r.randint(f, lens[a])]
                p.append({"o": "bytes", "r": a + 1, "from": f, "to": t})
                lens.append(max(0, (t[0] if t else lens[a]) - f))
            elif k < 0.9:
                rs = [r.randrange(len(lens)) for _ in range(r.randint(0, 4))]
                p.append({"o": "multi", "rs": [x + 1 for x in rs]})
                lens.append(sum(lens[x] for x in rs))
            elif k < 0.95:
                p.append({"o": "bold", "r": a + 1})
                lens.append(lens[a])
            else:
                p.append({"o": "empty"})
                lens.append(0)
        out.append({"op": "lprog", "prog": p, "unit": 16})
    return out

FRAG = ["és ", "vagy ", "és", "vagy", "és-", "ill. ", "", "", "a", "-", "--", " ", "szó", "szó-", "szó -", "ésszerű", "vagyon", "És ", "-és ", "–", "kap-", "csolat", "(1) bek", "Vagy "]

def joins(r, n):
    out = []
    for _ in range(n):
        out.append({"op": "join", "ts": ["".join(r.choice(FRAG) for _ in range(r.randint(0, 3))) for _ in range(r.randint(1, 6))]})
    return out

QFR = ["„", "“", "”", "a", "„a”", "”„", "„„", "””", "\"", "'", "»", ""]

def quotes(r, n):
    out = []
    for _ in range(n):
        out.append({"op": "quote", "ts": ["".join(r.choice(QFR) for _ in range(r.randint(0, 4))) for _ in range(r.randint(1, 7))]})
    return out
