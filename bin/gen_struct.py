"""Drafted act bodies: plausible ones, damaged ones, and line soups."""
import re
LET = list("abcdefghijklmnoprstuvz")
HUNL = ["a", "b", "c", "cs", "d", "dz", "e", "f", "g", "gy", "h", "i", "j", "k", "l", "ly", "m", "n", "ny", "o", "p", "r", "s", "sz", "t", "ty", "u", "v", "z", "zs"]
WORDS = ["alma", "körte", "a törvény", "szerinti", "(2) bekezdés", "5. § szerinti", "a) pont", "ideértve,", "és", "vagy", "hatály-", "kell:", "az alábbi", "1. pont", "XII. fejezet", "„idézet”", "„a” és „b”", "[x]", "[x] y", "(z)", "„„m” n”", "“o”", "Ba", "szól-", "az", "–", "ebben:", "alpont", "pont x", "bekezdés", "alpon", "pon", "bekezdé", "jel*", "*"]
ROM = ["I", "II", "III", "IV", "V", "VI", "VII", "VIII", "IX", "X"]
HUN = ["ELSŐ", "MÁSODIK", "HARMADIK", "NEGYEDIK", "ÖTÖDIK", "HATODIK"]

HYPH = ["kap-", "-", "és", "vagy", "és x", "vagyon", "ésszerű", "–", "a-", "vagy-", "alma", "csolat"]

def words(r, lo=1, hi=3):
    if r.random() < 0.04:
        lo, hi = 7, 14
    return " ".join(r.choice(WORDS) for _ in range(r.randint(lo, hi)))

LOOKS = ["1. § ", "2. § ", "3. § ", "(1) ", "(2) ", "(3) ", "a) ", "b) ", "c) ", "aa) ", "ab) ", "1. ", "2. ", "3. ", "II. FEJEZET", "ELSŐ RÉSZ", "[T]", ""]

class D:
    """A drafter: writes lines with a current layout."""
    def __init__(self, r, quote=0.15, points=0.4):
        self.r, self.out = r, []
        self.qp, self.pp = quote, points
        self.noindent = r.random() < 0.25
        self.step = r.choice([40, 40, 20, 8, 4, 3])
        self.many = r.random() < 0.05

    def count(self, lo, hi):
        """How many; in some drafts one of the lists is long."""
        if self.many and self.r.random() < 0.5:
            self.many = False
            return self.r.choice([9, 10, 11, 12, 22])
        return self.r.randint(lo, hi)

    def put(self, t, x, b=0, j=None):
        r = self.r
        if self.noindent:
            x = 0
        if r.random() < 0.06:
            x = max(0, x + r.choice([-4, -3, 3, 4, 5, -20, 20]))
        if r.random() < 0.03:
            b = 1
        if j is None:
            j = int(r.random() < 0.6)
        self.out.append([t, x, b, j])

    def text(self, x, first="", lines=None):
        """header + text wrapped to some lines, continuation lines deeper"""
        r = self.r
        n = lines if lines is not None else r.choice([1, 1, 1, 2, 3])
        if r.random() < self.qp / 3:
            # quoted text over several lines, which may look like anything
            self.put(first + r.choice(["„x", "y „z", "x „y” „z", "“k", "„", "x „", "x „y:", "x: „y:"]), x)
            for _ in range(r.choice([0, 1, 1, 2])):
                self.put(r.choice(LOOKS) + r.choice(["x", "", "„y”"]), r.choice([x, x, x + self.step, 0]))
            self.put(r.choice(LOOKS + [""]) + (words(r, 8, 14).replace("„", "").replace("”", "").replace("“", "") + " " if r.random() < 0.25 else "")
                     + r.choice(["z”", "z” w", "„u”v”", "”", "„u””", "„u” v”"]), r.choice([x, x + self.step]))
            return
        self.put(first + words(r), x)
        for _ in range(n - 1):
            self.put(words(r), x + self.step if r.random() < 0.8 else x)

    def wrap(self, x):
        if self.r.random() < 0.35:
            self.put(self.r.choice(["záró rész", "a továbbiakban.", "rendelkezések„x”", words(self.r)]), x)
            if self.r.random() < 0.3:
                for _ in range(self.r.choice([1, 2, 3, 4])):
                    self.put(words(self.r), x, j=int(self.r.random() < 0.75))

    def quoted(self, x):
        r = self.r
        k = r.randint(1, 2) if r.random() < 0.97 else r.choice([5, 9, 12])
        if r.random() < 0.5:
            self.put(r.choice(["(A miniszter", "[Az alábbi", "(x)", "[„k” szerint]", "(Nem kell"]), x)
            if r.random() < 0.7:
                self.put(r.choice(["rendeletben)", "szerint:]", "a)", "”)", "b"]), x)
        for _ in range(k):
            n = r.randint(0, 4)
            inner = [r.choice(["(1) alma", "a) körte", "b) dió", "2. § (1) x", "3. § y", "„belső”", "„nyit", "zár”", "II. FEJEZET", "", "1. pont", "aa) s", "szöveg", "vége:"]) for _ in range(n)]
            self.put("„" + r.choice(["(2) x", "a) y", "b)", "3. §", "12. § (1) z", "", "k „l”", "„m” n", "(", "„p”)"]) + ("" if n else "”"), x + r.choice([0, 20]))
            for q, t in enumerate(inner):
                self.put(t + ("”" if q == n - 1 else ""), x + r.choice([0, 20, 40]))
            if r.random() < 0.2:
                self.put("", 0)
        if r.random() < 0.3:
            self.put(r.choice(["(szankcióval sújtható.)", "[zár]", "(nyitva", "(a„b”c)"]), x)
        if r.random() < 0.3:
            self.put("lép.", x)

    def asub(self, x, prefix):
        r = self.r
        n = self.count(1, 3)
        if r.random() < 0.12:
            prefix = r.choice(["", "a", "b", "c"])
        for q in range(n):
            self.text(x, f"{prefix}{LET[q]}) ")

    def nsub(self, x):
        for q in range(self.count(1, 3)):
            self.text(x, f"{q + 1}. ")

    def points(self, x):
        r = self.r
        s = self.step
        if r.random() < 0.5:
            seq = LET if r.random() < 0.7 else HUNL
            for q in range(self.count(1, 4) if seq is LET else self.count(2, 6)):
                self.text(x, f"{seq[q]}) ", 1)
                z = r.random()
                if z < 0.15:
                    self.asub(x + s, seq[q])
                    self.wrap(x + s)
                elif z < 0.27:
                    self.nsub(x + s)
                    self.wrap(x + s)
        else:
            q, n = 1, self.count(1, 4)
            for _ in range(n):
                self.text(x, f"{q}. ", 1)
                if r.random() < 0.2:
                    self.text(x, f"{q}{r.choice(['/', ''])}a. ", 1)
                if r.random() < 0.2:
                    self.asub(x + s, "")
                    self.wrap(x + s)
                q += 1
        self.wrap(x)

    def para(self, x, head):
        r = self.r
        self.text(x, head)
        z = r.random()
        if z < self.pp:
            self.points(x + r.choice([0, self.step]))
        elif z < self.pp + self.qp:
            if r.random() < 0.7:
                self.put(r.choice(["A törvény helyébe a következő lép:"] * 3 + ["(Az „a” helyébe) a következő lép:", "[a következő lép:", "lép: :", ":", "lép:*"]), x)
            self.quoted(x)
        if r.random() < 0.1:
            self.put("", 0)

    def bold_head(self, write):
        k = len(self.out)
        write()
        if self.r.random() < 0.1:
            self.out[k][2] = 1

    def article(self, n, suffix=""):
        r = self.r
        x = r.choice([0, 0, 20])
        head = f"{n}{suffix}. § "
        if r.random() < 0.2:
            head = head.replace(". §", ".§")
        if r.random() < 0.2:
            t = r.choice(["[Cím]", "[Hosszú", "[Hosszú", "[„Cím”]", "[Cím] folyt", "[A [b] c", "[]", "[Cím]]", "[[Dupla] cím]", "[[x]", "[*]", "[ Cím]", "[ ", "[Cím ]", "[\u00a0x ]"])
            self.put(head + t, x, int(r.random() < 0.12))
            if not t.endswith("]"):
                self.put(r.choice(["cím]", "cím]", "cím", "x [y]", "x [y] z]"]), x + 40)
                if r.random() < 0.2:
                    self.put("vége]", x + 40)
            if r.random() < 0.1:
                self.put("", 0)
            head = ""
        m = self.count(-1, 3)
        if m <= 0:
            self.bold_head(lambda: self.para(x + (40 if head == "" else 0), head))
        else:
            q = 1
            for z in range(m):
                self.bold_head(lambda: self.para(x + (40 if z else 0), (head if z == 0 else "") + f"({q}) "))
                if r.random() < 0.15:
                    self.para(x + 40, f"({q}a) ")
                q += 1

    def struct(self):
        r = self.r
        z = r.random()
        b = int(r.random() < 0.7)
        if z < 0.2:
            self.put(r.choice(HUN) + " KÖNYV", 200, b)
        elif z < 0.4:
            self.put(r.choice(HUN + ["ÁLTALÁNOS", "KÜLÖNÖS", "ZÁRÓ", "MÁS"]) + " RÉSZ", 200, b)
        elif z < 0.55:
            self.put(r.choice(ROM) + r.choice(["", "", "/A"]) + ". CÍM", 200, b)
        else:
            self.put(r.choice(ROM) + r.choice(["", "", "/A"]) + ". " + r.choice(["FEJEZET", "Fejezet", "fejezet"]), 200, b)
        for _ in range(r.randint(0, 2)):
            self.put(words(r), 200, b)

    def subtitle(self, n):
        r = self.r
        if r.random() < 0.7:
            self.put("", 0)
        z = r.random()
        if z < 0.5:
            self.put(f"{n}. " + r.choice(["Az alcím", "évi", "§ jel", "alcím", words(r)]), 200, int(r.random() < 0.9))
        elif z < 0.6:
            self.put(f"{n}/A. Betűs", 200, 1)
        else:
            self.put(r.choice(["Az alcím", "Értelmező rendelkezések", "kisbetűs", "„idézett”"]), 200, int(r.random() < 0.9))
        if r.random() < 0.2:
            self.put(words(r), 200, 1)

    def act(self):
        r = self.r
        if r.random() < 0.4:
            self.put(words(r), 0)
        k = 1
        book = r.random() < 0.1
        for _ in range(self.count(1, 3)):
            if r.random() < 0.25:
                self.struct()
            if r.random() < 0.25:
                self.subtitle(k)
            self.article(("1:" if book else "") + str(k))
            if r.random() < 0.08:
                self.article(str(k), "/A")
            k += 1
        return self.out

SOUP = ["1. § ", "2. § ", "1. § (1) ", "(1) ", "(2) ", "(3) ", "a) ", "b) ", "c) ", "aa) ", "ab) ", "1. ", "2. ", "3. ", "„", "”", "", "x", "x:", "(", "]", "[", "”.", "1/A. § ", "2a. ", "(1a) ", "I. FEJEZET", "1. pont", "a) pont", "(1) bekezdés", "szó-", "és x", "ba) ", "II. CÍM"]

def soup(r):
    ls = [["1. § " + r.choice(["", "x", "(1) x", "[T]", "a) x", "„x”", "x:"]), 0, 0, 1]] if r.random() < 0.8 else []
    for _ in range(r.randint(1, 9)):
        t = r.choice(SOUP) + r.choice(["", "", "x", "y”", "„z"])
        ls.append([t, r.choice([0, 0, 0, 4, 20, 40]), int(r.random() < 0.1), int(r.random() < 0.5)])
    return ls

HEADS = [(r"^\((\d+)([a-z]?)\) ", ["({0}/a) ", "({1}/a) ", "({1}.a) ", "({1} a) ", "({1}á) ", "({0}/) ", "( {0}) ", "({0}.) ", "({0})", "({0}A) ", "({0}ab) ", "({0})\u00a0", "({0})  ", "(({0}) ", "[{0}] ", "({0}cs) ", "({0}–{0}) "]),
         (r"^(?:\d+:)?(\d+)(/[A-Z])?\. ?§ ", ["{0}. §-a ", "{1}/a. § ", "{1}A. § ", "{1}-A. § ", "{1}/A § ", "{0}. §x ", "{0}.  § ", "{0} § ", "{0}. §\u00a0", "{0}/a. § ", "{0}. §", "{0}/AB. § ", "{0}. §§ ", "{0}.. § ", "{0}. § . ", "{0}/1. § ", "{0}-{0}. § ", "{0}. §,", "{0}/Á. § ", "1:{0}. § ", ":{0}. § "]),
         (r"^(\d+)(/?[a-z]?)\. ", ["{0}.", "{1}/A. ", "{1}-a. ", "{1}.a. ", "{1} a. ", "{0}.\u00a0", "{0}) ", "{0}/A. ", "{0}/ab. ", "{0} . ", "{0}. . ", "{0}.  ", "{0}/cs. ", "{0}A. ", "{0}-", "{0}., "]),
         (r"^([a-z]{1,3})\) ", ["{0})", "{0}.) ", "{0} ) ", "({0}) ", "{0}1) ", "{0})\u00a0", "{0}))", "{0}.", "{0})  ", "{0}/", "{0}*) "])]

def near_head(r, t):
    """a line whose header is not quite one"""
    for pat, ts in HEADS:
        m = re.match(pat, t)
        if m:
            rest = t[m.end():]
            if pat.startswith("^([a-z]") and r.random() < 0.3:
                return m.group(1).upper() + ") " + rest
            return r.choice(ts).format(m.group(1), int(m.group(1)) - 1 if m.group(1).isdigit() else 0) + rest
    return t

def damage(r, ls):
    ls = [list(l) for l in ls]
    if r.random() < 0.25:
        at = [k for k, l in enumerate(ls) if near_head(r, l[0]) != l[0]]
        if at:
            k = r.choice(at)
            ls[k][0] = near_head(r, ls[k][0])
        if r.random() < 0.6:
            return ls
    for _ in range(r.randint(0, 3)):
        if not ls:
            break
        k = r.randrange(len(ls))
        z = r.random()
        if z < 0.2:
            del ls[k]
        elif z < 0.35:
            ls.insert(k, list(ls[r.randrange(len(ls))]))
        elif z < 0.5 and k + 1 < len(ls):
            ls[k], ls[k + 1] = ls[k + 1], ls[k]
        elif z < 0.65:
            ls[k][1] = r.choice([0, 3, 4, 5, 20, 40, 200])
        elif z < 0.75:
            ls[k][0] = ls[k][0] + r.choice(["”", "„", "]", ")", ":", "-", " "])
        elif z < 0.85:
            ls.insert(k, ["", 0, 0, 0])
        else:
            ls[k][2] = 1 - ls[k][2]
    return ls

def clean(ls):
    return [[t, x if t else 0, b if t else 0, j if t else 0] for t, x, b, j in ls]

ODD = ["\u00a0", "\u2028", "ß", "İ", "\U0001f600", "e\u0301", "Ⅳ", "٣", "\ufeff", "〉", "\t", "\ufffd"]
HUGE = ["65535. § x", "65536. § x", "99999999999999999999. § x", "0. § x", "(65535) x", "(0) x", "1:1. § x", "0:0. § (1) x", "MMMM. FEJEZET", "I/ZS. FEJEZET",
        "ezredik RÉSZ", " RÉSZ", " KÖNYV", ". CÍM", "/A. § x", "1/. § x", "1/AA. § x", "1/a. § x", "(1) ", "()", "a)", ") x", "zs) x", "zz) x", "aaa) x", "1/cs. x",
        "§", ". §", "1. §", "1.§", "1. § ", "[", "]", "(", ")", "„", "”", ":", "-", "és ", " ", "  ", "1. § [", "1. § []", "1. § [T", "(1) (2) x", "a) aa) x"]

def odd(r):
    """lines nobody would draft"""
    ls = []
    for _ in range(r.randint(1, 8)):
        z = r.random()
        if z < 0.4:
            t = r.choice(HUGE)
        elif z < 0.6:
            t = r.choice(HUGE) + r.choice(ODD) + r.choice(["", "x", ":"])
        elif z < 0.8:
            t = r.choice(SOUP) + r.choice(ODD + ["", "x"])
        else:
            t = "".join(r.choice("a1(.)/ §„”[]:-IÉé") for _ in range(r.randint(0, 7)))
        ls.append([t, r.choice([0, 0, 1, 3, 4, 5, 20, 4000]), int(r.random() < 0.2), int(r.random() < 0.5)])
    if r.random() < 0.5:
        ls.insert(0, ["1. § " + r.choice(["", "x:", "(1) x", "[T]"]), 0, 0, 1])
    if r.random() < 0.02:
        # subtitles beyond what is believable
        n = r.choice([1498, 1499, 1500, 1501, 1600]) - 2
        k = r.randint(0, n)
        ls = [["Az " + "b" * (k // 2), 200, 1, 0], ["é" * ((n - k) // 2) + "b" * ((n - k) % 2 + k - k // 2), 200, 1, 0]][:r.choice([1, 2])] + [["1. § x", 0, 0, 0]]
    return ls

def bodies(r, n, kinds=("act", "damaged", "soup"), maxlines=28, **kw):
    out = []
    hyphens = kw.pop("hyphens", False)
    while len(out) < n:
        k = r.choice(kinds)
        if k == "soup":
            ls = soup(r)
        elif k == "odd":
            ls = odd(r)
        else:
            ls = D(r, **kw).act()
            if k == "damaged":
                ls = damage(r, ls)
        if 0 < len(ls) <= (maxlines if k in ("soup", "odd") else 3 * maxlines):
            if hyphens:
                ls = [[(t + " " if t and r.random() < 0.7 else t) + r.choice(HYPH) if r.random() < 0.5 else r.choice(HYPH) + (" " + t if r.random() < 0.5 else "")
                       if r.random() < 0.2 else t, x, b, j] for t, x, b, j in ls]
            out.append({"ls": clean(ls)})
    return out

FRAMES = [("(2) ", 0, ["1. § (1) x", "(2) y", "(3) z"]), ("2. § ", 1, ["1. § x", "2. § y", "3. § z"]), ("2. ", 2, ["1. § x:", "1. a", "2. b", "3. c"]), ("b) ", 3, ["1. § x:", "a) a", "b) b", "c) c"]),
          ("(2) ", 0, ["1. § (1) x:", "a) a", "b) b", "(2) y:", "a) z", "b) v"]), ("aa) ", 3, ["1. § x:", "a) y:", "aa) z", "ab) v", "b) w"]), ("2. ", 2, ["1. Alcím", "1. § x", "", "2. Alcím", "2. § y"])]

def near_heads():
    """every header that is not quite one, where one is expected"""
    out = []
    for head, pat, ls in FRAMES:
        n = head.strip("(). §")
        prev = int(n) - 1 if n.isdigit() else 0
        for t in HEADS[pat][1] + ([n.upper() + ") "] if pat == 3 else []):
            for last in (False, True):
                k = next(i for i, l in enumerate(ls) if l.startswith(head))
                body = list(ls[:k + 1] if last else ls)
                body[k] = t.format(n, prev) + body[k][len(head):]
                out.append({"ls": clean([[l, 200 if l.endswith("Alcím") else 0, int(l.endswith("Alcím")), 1] for l in body])})
    return out
