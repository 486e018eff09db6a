"""Histories of operations on what lasts between runs."""
GOOD = ["ok", "chunked", "close"]
BAD = ["404", "500", "cut", "cutchunk", "drop", "refuse", "400", "401", "403", "408", "410", "429", "501", "502", "503", "504"]
ACTS = [[2011, 80], [2011, 81], [1990, 1], [2022, 3999], [1111, 80], [2011, 400], [2011, 500], [2011, 600], [2011, 90]]
ISSUES = [[2011, 71], [2011, 7], [2009, 71], [2000, 1], [2099, 200], [1998, 123], [2011, 171], [2005, 1000], [1911, 71], [3011, 71], [11, 71], [1, 7]]
TEXTS = ["", "x", "§", "„a”", " lead", "trail ", "- dash", "a: b", "# c", "'q'", "\"", "\ttab", "null", "1", "~", "hosszú szöveg " * 30, "árvíztűrő"]

def fix(rng):
    return {"after": [rng.choice(TEXTS) for _ in range(rng.choice([0, 0, 1, 2]))], "old": rng.choice(TEXTS), "new": rng.choice(TEXTS), "bold": rng.random() < 0.2}

def saves(rng, n, hows, maxlen=4):
    out = []
    for _ in range(n):
        al = rng.sample(ACTS, rng.randint(2, 3))
        steps = []
        for _ in range(rng.randint(1, maxlen)):
            a = rng.randint(1, len(al))
            mk = lambda: [fix(rng) for _ in range(rng.choice([1, 1, 1, 2, 5, 40 if rng.random() < 0.3 else 0]))]
            steps.append({"a": a, "add": mk(), "how": rng.choice(hows), "keep": rng.choice([0, 0, rng.randint(1, 9)]), "other": {"a": a, "add": mk()}})
        out.append({"kind": "fixups", "all": al, "steps": steps})
    return out

def gets(rng, n, hows, maxlen=6):
    out = []
    for _ in range(n):
        al = rng.sample(ISSUES, rng.randint(2, 4))
        steps = []
        for _ in range(rng.randint(1, maxlen)):
            a = rng.randint(1, len(al))
            how = rng.choice(hows)
            srv = rng.choice(GOOD) if how == "pause" or rng.random() < 0.45 else rng.choice(GOOD + BAD)
            steps.append({"a": a, "srv": srv, "len": rng.choice([0, 1, 7, 500, 9000, 70000, 300000 if rng.random() < 0.2 else 3]),
                          "how": how, "keep": rng.choice([0, 0, rng.randint(1, 9)]), "other": {"a": a}})
        out.append({"kind": "cache", "all": al, "steps": steps})
    return out
