"""Pages of lines and corrections of them."""
import gen_line
ODD = ["yes", "no", "null", "~", "1.", "1", "- x", "a: b", "#x", "'", "\"", "„a”", "<BOLD>", "\t", "[a]", "{b}", "|", ">", "%", "@a", "*", "* a", "0x1F", "1e3", "true", "é", "a  b", " a", "a ", "ő\u00a0ű", "\\n", "é\u2028x", "---", "...", "a\nb", "\u0007", "\ufeff", "=", "<<", "2011-01-01", ":", "? a", "!!x", "&a", "a\r", "\r", "\rb", "a\r\n", "\u0085", "\u001b", "\u0000", "\u007f", "a\u2029"]

SIMILAR = {"é": "e", "e": "é", "ő": "ö", "ö": "ő", "a": "а", "c": "с", "1": "l", "(": "[", ".": ",", "§": "S", "-": "–", " ": "\t"}

def text_line(r, t, bold=None):
    bs = r.choice([0, 0, 1, None]) if bold is None else bold
    return {"p": [[r.choice([20, 20, 21, 7, 40]) if q else r.choice([0, 4, 20, 100, 250]), c, bs if bs is not None else r.choice([0, 1])] for q, c in enumerate(t)], "j": r.random() < 0.5}

def mutate(r, t):
    k = r.random()
    ch = lambda n: "".join(r.choice("abcéű §1") for _ in range(n))
    if k < 0.1:
        return ""
    if k < 0.17 and t:
        q = r.randrange(len(t))             # a character that looks like the one before, or almost
        return t[:q] + r.choice([t[q].swapcase(), SIMILAR.get(t[q], t[q].upper()), "\u00a0" if t[q] == " " else t[q] * 2]) + t[q + 1:]
    if k < 0.24:
        return ch(r.randint(1, 8))
    a = r.randint(0, len(t)) if k < 0.8 else max(0, len(t) - r.randint(0, 4))
    b = min(len(t), a + r.choice([0, 0, 1, 2, 3, 9])) if k < 0.8 else len(t)
    return (t[:a] + ch(r.choice([0, 1, 1, 2, 3, 5, 7])) + t[b:])

def put_in(old, new):
    """characters that are not common with the old text"""
    h = 0
    while h < min(len(old), len(new)) and old[h] == new[h]:
        h += 1
    t = 0
    while t < min(len(old), len(new)) - h and old[-1 - t] == new[-1 - t]:
        t += 1
    return len(new) - h - t

def pages(r, n, odd=False):
    out = []
    while len(out) < n:
        pool = ["".join(r.choice("abcdéő §(1).") for _ in range(r.randint(0, 8))) for _ in range(r.randint(1, 5))] + [""]
        if odd:
            pool += [r.choice(ODD) for _ in range(4)]
        if r.random() < 0.08:
            pool.append("".join(r.choice("abcdéő §(1).") for _ in range(r.randint(90, 260))))
        texts = [r.choice(pool) for _ in range(r.randint(1, 9))]
        ls = [text_line(r, t) for t in texts]
        cur, fs, again = list(texts), [], False
        for _ in range(r.randint(1, 5)):
            p = r.randrange(len(cur))
            ctx = 0
            if r.random() < 0.85:
                while ctx < p:
                    needle = cur[p - ctx:p + 1]
                    if sum(cur[q - ctx:q + 1] == needle for q in range(ctx, len(cur))) == 1:
                        break
                    ctx += 1
            new = r.choice(ODD) if odd and r.random() < 0.6 else mutate(r, cur[p])
            if put_in(cur[p], new) > 10:
                continue
            f = dict(after=cur[p - ctx:p], old=cur[p], new=new, bold=r.random() < 0.2)
            if r.random() < 0.05:
                f["old"] = mutate(r, f["old"])
                if put_in(f["old"], new) > 10:
                    continue
            if r.random() < 0.03 and f["after"]:
                f["after"] = f["after"][1:]
            if r.random() < 0.03:
                f["after"] = [r.choice(pool)] + f["after"]
            fs.append(f)
            k = r.random()
            if k < 0.06:            # made, taken back, and made again
                back = dict(f, old=f["new"], new=f["old"])
                if put_in(back["old"], back["new"]) <= 10:
                    fs += [back] if k < 0.02 else [back, dict(f)]
                    again = True
                    if k < 0.02:
                        new = cur[p]
            elif k < 0.08:          # made twice
                fs.append(dict(f))
                again = True
            cur[p] = new
        if fs:
            i = dict(ls=ls, fs=fs)
            if odd or again or r.random() < 0.2:
                i["stored"] = 1
            out.append(i)
    return out
