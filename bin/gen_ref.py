"""Random references and construction histories."""
import gen_ident as gi
LEVELS = ["act", "art", "para", "pt", "sub"]

def nums(r):
    return gi.num(r)

def artc(r):
    return gi.art(r).replace(":", ".").replace("/", "").lower()

def key_num(s):
    d = "".join(ch for ch in s if ch.isdigit())
    return (int(d), key_let(s[len(d):]))

def key_let(l):
    if l == "":
        return -1
    return 2 * (ord(l[0]) - 97) + (1 if len(l) > 1 else 0)

def key_art(s):
    b, n = s.split(".") if "." in s else ("-1", s)
    return (int(b), key_num(n))

def key_pre(s):
    return (key_let(s[:-1]), key_let(s[-1]))

def rng(r, g, key, prob, forward):
    a = g(r)
    if r.random() >= prob:
        return a
    b = g(r)
    if forward and key(a) > key(b):
        a, b = b, a
    return a + "-" + b if a != b else a

def small(g):
    """prefers small values so that coincidences are frequent"""
    def f(r):
        return g(r)
    return f

def few_num(r):
    return r.choice(["1", "2", "3", "1a", "2a", "2b", "3cs", "4", "10", "11"]) if r.random() < 0.7 else nums(r)

def few_art(r):
    return r.choice(["1", "2", "3", "1a", "2b", "1.1", "1.2", "2.1", "10"]) if r.random() < 0.7 else artc(r)

def few_let(r):
    return r.choice(["a", "b", "c", "cs", "d", "zs"]) if r.random() < 0.7 else gi.letter(r)

def few_pre(r):
    return r.choice(["a", "b", "aa", "ab", "ac", "ba", "cs"]) if r.random() < 0.7 else gi.pre(r)

def part(r, l, prob=0.25, forward=True):
    if l == 0:
        return r.choice(["2012.1", "2012.2", "2013.1"]) if r.random() < 0.7 else gi.act(r)
    if l == 1:
        return rng(r, few_art, key_art, prob, forward)
    if l == 2:
        return rng(r, few_num, key_num, prob, forward)
    if l == 3:
        return rng(r, few_num, key_num, prob, forward) if r.random() < 0.5 else rng(r, few_let, key_let, prob, forward)
    return rng(r, few_num, key_num, prob, forward) if r.random() < 0.4 else rng(r, few_pre, key_pre, prob, forward)

SHAPES = [(a, b, c, d, e) for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 1) for e in (0, 1)]

def valid_shape(s):
    a, b, c, d, e = s
    return (not (b or c or d or e)) or (b and (d or not e)) or (not a and not b and ((c and not d and not e) or d or (not c and not d and e)))

VALID = [s for s in SHAPES if valid_shape(s)]

def ref_parts(r, forward=True):
    s = r.choice(VALID)
    last = max([l for l in range(5) if s[l]], default=-1)
    return [part(r, l, 0.3 if l == last else 0.0, forward) if s[l] else "" for l in range(5)]

def ref(r, forward=True):
    return "_".join(ref_parts(r, forward))

def kin(r, s):
    """a reference related to s: ancestor, descendant, sibling or the same path in another form"""
    p = s.split("_")
    present = [l for l in range(5) if p[l]]
    k = r.random()
    q = list(p)
    if present:
        last = present[-1]
        if k < 0.25:
            q[last] = ""
        elif k < 0.5:
            q[last] = part(r, last, 0.3)
        elif k < 0.6:
            q[last] = q[last].split("-")[0]
            if last < 4 and last > 0:
                q[last + 1] = part(r, last + 1, 0.2)
        elif k < 0.7 and last in (1,):
            q[last] = q[last].split("-")[0]
            q[3] = part(r, 3, 0.2)
        elif k < 0.8:
            q[2] = "" if q[2] else part(r, 2, 0)
        elif k < 0.9:
            q[0] = "" if q[0] else part(r, 0)
        else:
            lo = r.choice(present)
            q[lo] = part(r, lo, 0)
    q = "_".join(q)
    return q if ok_ref(q) else ref(r)

def ok_ref(s):
    p = s.split("_")
    sh = tuple(1 if x else 0 for x in p)
    if sh not in VALID:
        return False
    return not any(p[l] and l > 0 and "-" in p[l] and any(p[m] for m in range(l + 1, 5)) for l in range(5))

def pair_cases(r, n):
    out = []
    for _ in range(n):
        a = ref(r)
        bs = [kin(r, a) for _ in range(8)] + [ref(r) for _ in range(3)] + [a]
        bs += [kin(r, bs[0]), kin(r, bs[1])]
        out.append({"op": "row", "a": a, "bs": bs})
    return out

def progs(r, n):
    out = []
    for _ in range(n):
        p = []
        for _ in range(r.randint(3, 14)):
            k = r.random()
            if p and k < 0.1:
                p.append(r.choice(p))
            elif k < 0.35:
                l = r.randrange(5)
                p.append({"o": "set", "l": LEVELS[l], "v": part(r, l, 0.3, False)})
            elif k < 0.42:
                p.append({"o": "reset", "l": LEVELS[r.randint(1, 4)]})
            elif k < 0.55:
                p.append({"o": "build"})
            elif k < 0.62:
                s = ref(r, False) if r.random() < 0.7 else "_".join(part(r, l, 0.2) if r.random() < 0.5 else "" for l in range(5))
                p.append({"o": "compact", "v": s})
            elif k < 0.69:
                p.append({"o": "serde", "v": [part(r, l, 0.2, False) if r.random() < 0.5 else "" for l in range(5)]})
            elif k < 0.72:
                p.append(r.choice([{"o": "act", "v": part(r, 0)}, {"o": "art", "v": part(r, 1)}, {"o": "actart", "v": part(r, 0), "w": part(r, 1)}]))
            else:
                p.append({"o": r.choice(["save", "save", "swap", "parent", "noact", "first", "last", "rel", "rel", "range", "range"])})
        out.append({"op": "prog", "prog": p})
    for _ in range(n // 2):         # two related references, combined
        a = ref(r, False)
        b = kin(r, a) if r.random() < 0.5 else split(r, a)
        p = [{"o": "compact", "v": a}, {"o": "save"}, {"o": "compact", "v": b}, {"o": r.choice(["range", "range", "rel"])}]
        if r.random() < 0.5:
            p.insert(3, {"o": "swap"})
        for _ in range(r.randint(0, 3)):
            p.append({"o": r.choice(["save", "swap", "parent", "noact", "first", "last", "rel", "range"])})
        out.append({"op": "prog", "prog": p})
    return out

def split(r, a):
    """the path of a, left at some level, continued on either side"""
    p = a.split("_")
    present = [l for l in range(1, 5) if p[l]]
    if not present:
        return ref(r)
    l = r.choice(present)
    q = p[:l] + [""] * (5 - l)
    for m in range(l, 5):
        if m == l or r.random() < 0.35:
            v = part(r, m, 0, False)
            while p[m] and p[m][0].isdigit() != v[0].isdigit():     # the same kind of point
                v = part(r, m, 0, False)
            q[m] = v
    last = max(m for m in range(5) if q[m])
    if r.random() < 0.5 and p[last]:
        v = part(r, last, 1, False)
        while p[last][0].isdigit() != v[0].isdigit():
            v = part(r, last, 1, False)
        q[last] = v
    q = "_".join(q)
    return q if ok_ref(q) else ref(r)

def notation_cases(r, n):
    out = []
    for x in ["2012.1_1.2-1.3k_1-2_a-k_aa-ak", "_1_2k__", "2011.112____", "_1a_1_1_a", "__1_k-s_"]:
        out += [{"op": "one", "s": s} for s in [x] + gi.lookalikes(x)]
    for _ in range(n):
        s = ref(r, r.random() < 0.8)
        k = r.random()
        if k < 0.25:
            s = gi.damage(r, s)
        elif k < 0.3:
            s = s.replace("_", r.choice(["", "__", "-"]), 1)
        elif k < 0.4:
            s = "_".join(part(r, l, 0.2, False) if r.random() < 0.5 else "" for l in range(5))
        out.append({"op": "one", "s": s})
        if r.random() < 0.5:
            v = ref_parts(r, False) if r.random() < 0.6 else [part(r, l, 0.2, False) if r.random() < 0.5 else "" for l in range(5)]
            out.append({"op": "serde", "v": v})
    return out
