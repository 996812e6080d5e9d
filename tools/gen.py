"""Random texts and calls.  Knows nothing about the right replies."""
import json, os, random, re
import ylib

HUGE = 1000000000
# Stand-ins for positions and limits near the limits of 64, 32, 16 and 8 bits (see the driver's WIDE).
FAR = [HUGE, -HUGE, -HUGE - 1] * 3 + [HUGE + i for i in range(1, 8)] + [-HUGE - 1 - i for i in range(1, 8)] \
      + [HUGE - 1, 255, 256, 257, -256, 65536, -65536, 65537]
_U = None


def unidata():
    global _U
    if _U is None:
        _U = json.load(open(os.path.join(ylib.SPEC, "unidata.json")))
    return _U


def look(table, c):
    return table["blk"][table["idx"][c >> 8] - 1][c & 255]


def enc(c):
    """Lenient UTF-8 (up to 0x1FFFFF)."""
    if c < 0x80: return [c]
    if c < 0x800: return [0xC0 | c >> 6, 0x80 | c & 63]
    if c < 0x10000: return [0xE0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63]
    return [0xF0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63]


def signed(c):
    """A number of 32 bits as TLC has it."""
    return c - 2 ** 32 if c >= 2 ** 31 else c


def encs(q):
    return [b for c in q for b in enc(c)]


def utf(s):
    return list(s.encode("utf-8", "surrogatepass"))


ASCII = [ord(c) for c in "aAbBxyz09 ,.-_\"'/%"]
CASE = [ord(c) for c in "aAbBsSkKiIzZ"] + [
    0x212A, 0x17F, 0xDF, 0x1E9E, 0xFF, 0x178, 0xB5, 0x3BC, 0x39C, 0x130, 0x131, 0x1C4, 0x1C5, 0x1C6,
    0x10400, 0x10428, 0x2126, 0x3C9, 0x3A9, 0x212B, 0xE5, 0xC5, 0xAB70, 0x13A0, 0x13F8, 0x13F0,
    0x10D0, 0x1C90, 0x250, 0x2C6F, 0x2170, 0x2160, 0x3D1, 0x3F4, 0x3B8, 0x1F80, 0x1F88, 0x1FB3,
    0xE6, 0xC6, 0xF8, 0xD8, 0x451, 0x401, 0x1E900, 0x1E922, 0x24D0, 0x24B6, 0xFF41, 0xFF21, 0x23A,
    0x2C65, 0x345, 0x399, 0x3B9, 0x1FBE, 0x2B0, 0xAA, 0x3C2, 0x3C3, 0x3A3]
MARKS = [0x300, 0x301, 0x308, 0x30A, 0x327, 0x345, 0x5B0, 0x903, 0x20DD, 0x1D165, 0xE0100, 0x3099,
         0x323, 0x306, 0x302]
NEWLINES = [10, 11, 12, 13, 13, 10, 0x85, 0x2028, 0x2029]
EDGES = [0, 1, 0x7F, 0x80, 0x85, 0xA0, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xD800, 0xDBFF, 0xDC00,
         0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFF, 0x20000, 0xFFFFF, 0x100000,
         0x10FFFE, 0x10FFFF]
WIDE = [0x20AC, 0x4E2D, 0x1F600, 0xE9, 0x416, 0x5D0, 0x3042, 0x10348]
SPACES = [32, 9, 10, 13, 11, 12, 0xA0, 0x2003, 0x3000, 0x85]
BAD = [[0x80], [0xBF], [0xC3], [0xDF], [0xE2], [0xE2, 0x82], [0xF0], [0xF0, 0x9F], [0xF0, 0x9F, 0x98],
       [0xFF], [0xFE], [0xF8], [0xF8, 0x88, 0x80, 0x80, 0x80], [0x80, 0x80, 0x80, 0x80, 0x80],
       [0xC0], [0xF7], [0xEF, 0xBF], [0x80] * 9]
# Decoded leniently: overlong forms and values beyond Unicode.
LENIENT = [[0xC0, 0x80], [0xC1, 0x81], [0xE0, 0x80, 0x80], [0xE0, 0x82, 0x85], [0xF0, 0x80, 0x80, 0x8A],
           [0xF4, 0x90, 0x80, 0x80], [0xF7, 0xBF, 0xBF, 0xBF], [0xC0, 0x8A], [0xC1, 0xA1],
           [0xF0, 0x82, 0x82, 0xAC], [0xED, 0xA0, 0x80], [0xF0, 0x80, 0x81, 0x81]]
ESC = ["\\", "\\n", "\\r", "\\t", "\\b", "\\f", "\\v", "\\a", "\\\\", "\\\"", "\\/", "\\u", "\\u0", "\\u00e6",
       "\\u20AC", "\\uD83D\\uDE00", "\\uD83D", "\\uDE00", "\\uD800\\u0041", "\\uD800\\u12", "\\ud83d\\n",
       "\\ud834\\udd1e", "\\u004", "\\uDBFF\\uDFFF", "\\uD800\\uDBFF", "\\U0001F600", "\\U00110000", "\\U0000004",
       "\\Uffffffff", "\\UFFFFFFFe", "\\x41", "\\x4", "\\x", "\\xe6", "\\x0010FFFF", "\\x00000000041", "\\xfffffffff",
       "\\x1F600", "\\X41", "\\101", "\\0", "\\7", "\\377", "\\400", "\\777", "\\18", "\\1234", "\\8", "\\e", "\\q",
       "\\\n", "\\\n\\\n", "\\ ", "\\\u00e6", "\\\u20ac", "\\\U0001f600", "\\{", "\\\r\n", "\\xg", "\\u{41}",
       "\\x123456789", "\\xFFFFFFFF", "\\x100000000", "\\uD83Dx", "\\uD83D\\x41", "\\uD83D\\u", "\\uD83D\\"]
ESC += ["\\x1" + "0" * n + x for n in (5, 6, 7, 8, 13, 14, 15, 16, 29, 30, 31, 61, 62, 63) for x in ("41", "")] + \
       ["\\x" + "0" * n + "41" for n in (7, 14, 15, 30, 31, 62, 126, 254)] + ["\\x" + "f" * n for n in (16, 17, 32, 33)] + \
       ["\\x80000000000000041", "\\xFFFFFFFF00000041", "\\x123456789ABCDEF0123456789", "\\U1234567890", "\\u12345678", "\\1010101"]
CTRL = [0, 1, 7, 8, 9, 10, 11, 12, 13, 26, 27, 31, 34, 92, 47, 127]


def source_literals():
    """Numbers and strings in the library's code (the tables aside): an input that a
    piece of code singles out is likely to be named there."""
    ints, strs = set(), set()
    for f in ylib.sources():
        if f.endswith("Tables.hpp") or not f.endswith((".hpp", ".cpp")):
            continue
        t = open(f, encoding="utf-8", errors="replace").read()
        t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
        t = re.sub(r"//[^\n]*", "", t)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|\d[\d']*)[uUlLzZ]*\b", t):
            v = m.group(1).replace("'", "")
            try:
                ints.add(int(v, 0) if v[:2] in ("0x", "0X") else int(v))
            except ValueError:
                pass
        for m in re.finditer(r"u?8?U?L?'((?:\\.|[^'\\\n])+)'", t):
            s = unc(m.group(1))
            if len(s) == 1:
                ints.add(ord(s))
        for m in re.finditer(r'"((?:\\.|[^"\\\n])*)"', t):
            s = unc(m.group(1))
            if 0 < len(s) <= 24 and ".hpp" not in s and "%" not in s:
                strs.add(s)
    ints = sorted(i for i in ints if i <= 0x1FFFFF)
    return ints, sorted(strs)


def unc(s):
    def f(m):
        x = m.group(1)
        if x[0] in "xuU":
            return chr(int(x[1:], 16)) if int(x[1:], 16) < 0x110000 else "?"
        if x[0] in "01234567":
            return chr(int(x, 8))
        return {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f", "v": "\v", "a": "\a"}.get(x, x)
    return re.sub(r"\\(x[0-9a-fA-F]+|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|[0-7]{1,3}|.)", f, s)


class Gen:
    def __init__(self, seed, fam=None):
        self.r = random.Random(seed)
        self.ints, self.strs = source_literals()
        self.cplits = [i for i in self.ints if i <= 0x10FFFF]
        self.lens = [i for i in self.ints if 4 <= i <= 5000]
        self.pairs = unidata()["pairs"]
        self.fam = fam or {"ascii": 3, "case": 2, "marks": 2, "nl": 1, "edges": 1, "wide": 2,
                           "pairs": 1, "lits": 1, "any": 1}
        self.bad = 0.25          # how many texts have malformed bytes
        self.longs = 0.02        # how many texts are long
        self.longlen = 1200
        self.maxlen = 9
        self.frag = []           # extra fragments (bytes)
        self.fragp = 0.0

    # --- code points and texts
    def cp(self):
        r = self.r
        k = r.choices(list(self.fam), list(self.fam.values()))[0]
        if k == "ascii": return r.choice(ASCII)
        if k == "case": return r.choice(CASE)
        if k == "marks": return r.choice(MARKS)
        if k == "nl": return r.choice(NEWLINES)
        if k == "edges": return r.choice(EDGES)
        if k == "wide": return r.choice(WIDE)
        if k == "spaces": return r.choice(SPACES)
        if k == "ctrl": return r.choice(CTRL)
        if k == "pairs": return r.choice(r.choice(self.pairs))
        if k == "lits": return r.choice(self.cplits)
        n = r.choice([0x100, 0x800, 0x3000, 0x10000, 0x20000, 0x110000])
        return r.randrange(n)

    def unit(self):
        r = self.r
        if r.random() < self.fragp:
            return list(r.choice(self.frag))
        if self.strs and r.random() < 0.02:
            return utf(r.choice(self.strs))
        if r.random() < 0.01:
            return list(r.choice(LENIENT))
        return enc(self.cp())

    def length(self):
        r = self.r
        x = r.random()
        if x < self.longs:
            if self.lens and r.random() < 0.6:
                n = r.choice(self.lens) + r.choice([-1, 0, 1, 1, 2])
                return max(0, min(n, self.longlen))
            return r.choice([33, 64, 65, 127, 128, 129, 255, 256, 257, 300, r.randrange(10, self.longlen)])
        if x < 0.05: return 0
        if x < 0.15: return r.choice([15, 16, 17, 22, 23, 24, 31, 32, 33, 40])
        return r.randrange(1, self.maxlen + 1)

    def units(self, n=None):
        """A text as a list of units."""
        r = self.r
        if n is None: n = self.length()
        if r.random() < 0.45:          # few different units: repeats and overlaps
            pool = [self.unit() for _ in range(r.choice([1, 2, 2, 3]))]
            u = [list(r.choice(pool)) for _ in range(n)]
        else:
            u = [self.unit() for _ in range(n)]
        return u

    def text(self, n=None, bad=None):
        r = self.r
        u = self.units(n)
        if r.random() < (self.bad if bad is None else bad):
            k = r.random()
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                u.insert(r.choice([0, len(u), r.randint(0, len(u))]), list(r.choice(BAD)))
            t = [b for x in u for b in x]
            if k < 0.2 and t:
                t = t[r.randrange(len(t)):]
            elif k < 0.4 and t:
                t = t[:r.randrange(len(t)) + 1]
            elif k < 0.5 and t:
                t[r.randrange(len(t))] = r.choice([0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xFF, 0x41])
            return t
        return [b for x in u for b in x]

    # --- arguments relative to a text
    def sub(self, t, n=4):
        """A pattern: usually part of the text."""
        r = self.r
        x = r.random()
        if x < 0.06: return []
        if t and x < 0.7:
            # along unit boundaries, mostly
            b = [i for i in range(len(t) + 1) if i == len(t) or t[i] & 0xC0 != 0x80]
            if r.random() < 0.15: b = list(range(len(t) + 1))
            i = r.randrange(len(b))
            k = r.choice([1, 1, 2, 2, 3, n, 8, len(b) if len(t) < 2500 else 40])
            p = t[b[i]:b[min(len(b) - 1, i + k)]]
            if p and r.random() < 0.12:
                p = p + self.unit()
            return p
        if x < 0.78 and t and len(t) < 9000: return t + (self.unit() if r.random() < 0.5 else [])
        return self.text(r.randrange(1, n), bad=self.bad * 0.5)

    def flip(self, t):
        """The same text in other case, where that is simple."""
        try:
            s = bytes(t).decode("utf-8")
        except UnicodeDecodeError:
            return t
        o = []
        D = unidata()
        for ch in s:
            c = ord(ch)
            k = self.r.random()
            o.append(self.alt(c) if k < 0.6 else c)
        return encs(o)

    def alt(self, c):
        """Another code point with the same upper case form."""
        D = unidata()
        u = c + look(D["up"], c) if c <= 0x10FFFF else c
        l = look(D["inv"], u) if u <= 0x10FFFF else 0
        return self.r.choice([u] + (D["ilists"][l - 1] if l else []))

    def cisub(self, t):
        return self.flip(self.sub(t))

    def many(self, n):
        """At times a number far beyond the usual."""
        x = self.r.random()
        return n if x > 0.03 else self.r.choice([15, 16, 17, 31, 32, 33, 64, 65]) if x > 0.004 else self.r.choice([128, 129, 255, 256, 257, 300])

    def chars(self, t):
        """Some code points, of which some are in the text."""
        r = self.r
        q = []
        try:
            s = [ord(c) for c in bytes(t).decode("utf-8", "surrogatepass")]
        except UnicodeDecodeError:
            s = [c for c in t if c < 128]
        for _ in range(self.many(r.choice([0, 1, 1, 2, 3, 6]))):
            q.append(r.choice(s) if s and r.random() < 0.55 else self.cp())
        if r.random() < 0.03: q.append(r.choice([-1, 0x110000, 0x1FFFFF, 0x7FFFFFFF]))
        return q

    blind = False        # the text is not known: only offsets that are always right

    def off(self, t, end=False):
        r = self.r
        if self.blind: return r.choice([-1, -1, 0]) if end else 0
        if end:
            x = r.random()
            if x < 0.4: return -1
            if x < 0.5: return len(t) + r.choice([1, 2, 7, 256, 65536, HUGE])
        if r.random() < 0.35: return 0
        return r.randint(0, len(t))

    def posn(self, t):
        r = self.r
        n = sum(1 for b in t if b & 0xC0 != 0x80)
        x = r.random()
        if x < 0.07: return r.choice(FAR)
        if x < 0.2: return r.choice([0, 0, -1, 1])
        m = min(n + 2, 12) if r.random() < 0.6 else n + 2
        return r.randint(-m, m)

    def limit(self):
        r = self.r
        if r.random() < 0.1: return r.choice(FAR)
        return r.choice([HUGE, HUGE, 0, 1, 1, 2, 2, 3, 5, -1, -1, -2, -3, -HUGE, 9])

    def maxsplit(self):
        return self.r.choice([-1, -1, -1, 0, 1, 1, 2, 2, 3, 4, HUGE, HUGE + 2, HUGE + 3, 256, 65536])

    def badcp(self):
        """A code point, at times one that cannot be encoded."""
        if self.r.random() < 0.08:
            return self.r.choice([-1, 0x110000, 0x110001, 0x1FFFFF, 0x7FFFFFFF, -2147483647, 0x200041])
        return self.cp()

    def intext(self, t):
        q = [c for c in self.chars(t) if c >= 0]
        return q[0] if q else self.cp()

    def member(self, t, ci=False, pred=True, cset=True):
        r = self.r
        k = r.random()
        if k < 0.5 or (not cset and not pred):
            return ["ci" if ci else "in", [self.alt(c) if ci and 0 <= c <= 0x10FFFF else c for c in self.chars(t)]]
        if k < 0.8 and cset:
            rs = []
            for _ in range(self.many(r.choice([0, 1, 1, 2, 3]))):
                a = max(0, self.intext(t) + r.choice([0, 0, -1, 1, -5]))
                b = a + r.choice([0, 0, 1, 5, 30, -1])
                rs += [signed(a), signed(max(0, b))]
            return ["ciset" if ci else "set", r.choice([0, 0, 1]), rs]
        if pred:
            return ["odd", []] if k < 0.9 else ["ge", [r.choice([0, 0x41, 0x61, 0x80, 0x300, 0x110000, 0x10000])]]
        return ["ci" if ci else "in", self.chars(t)]

    def finder(self, t, plain=False):
        r = self.r
        k = r.choice(["str", "str", "of", "of", "nl", "run", "at", "cistr", "ciof"])
        if k == "str": return ["str", self.sub(t)]
        if k == "cistr": return ["cistr", self.cisub(t)]
        if k in ("of", "ciof"): return [k, [c for c in self.chars(t)]]
        if k == "nl": return ["nl"]
        if k == "run": return ["run", sorted({self.r.choice(t) if t else 65 for _ in range(r.choice([1, 2]))})]
        return ["at", r.choice([0, 0, 1, 2, 3]), r.choice([0, 1, 1, 2, 3])]

    # --- calls
    est = 0              # in a history: at most how long the text has become
    grow = 1             # ... and by how much the last call made it longer, at most

    def call(self, op, t):
        """A call; its result stays well below what the driver reports in full."""
        c = self.any_call(op, t)
        self.grow = 4
        if op in ("replace", "ci_replace"):
            c[2] = c[2][:max(1, 400000 // (max(self.est, len(t)) + 1))]
            self.grow = max(1, len(c[2]))
        elif op == "join":
            self.est, self.grow = sum(map(len, c[1])) + len(c[1]) * len(c[2]), 1
        return c

    def kept(self):
        """The result of the last call is the next text."""
        self.blind = True
        self.est = min(self.est * self.grow, 10 ** 7)

    def any_call(self, op, t):
        r = self.r
        if op in ("append", "append_copy", "from_cp", "cp_case", "cls", "preds", "decomp"):
            return [op, self.badcp()]
        if op == "contains":
            return [op, self.intext(t) if r.random() < 0.6 else self.badcp()]
        if op == "from_utf32":
            return [op, [self.badcp() for _ in range(self.many(r.choice([0, 1, 2, 3, 5, 17, 40])))]]
        if op in ("decode_next", "decode_prev", "safe_next", "safe_prev", "skip_next", "skip_prev",
                  "view_set"):
            if self.blind: return [op, 0, 0]
            a, b = sorted((r.randint(0, len(t)), r.randint(0, len(t))))
            if r.random() < 0.3: a = 0
            if r.random() < 0.3: b = len(t)
            return [op, a, b]
        if op in ("repair", "repair_in"):
            return [op, 0xFFFD if r.random() < 0.5 else self.cp()]
        if op == "find_first": return [op, self.sub(t), self.off(t)]
        if op == "find_last": return [op, self.sub(t), self.off(t, True)]
        if op in ("starts_with", "ends_with"):
            return [op, self.affix(t, op[0] == "s")]
        if op == "ff":
            return [op, self.member(t, r.random() < 0.4 and "ci" in self.kinds, True), self.off(t)]
        if op == "fl":
            return [op, self.member(t, r.random() < 0.4 and "ci" in self.kinds, True), self.off(t, True)]
        if op in ("ff_ci", "fl_ci"):
            return [op[:2], self.member(t, True, False), self.off(t, op[1] == "l")]
        if op == "ffnl": return [op, self.off(t)]
        if op == "flnl": return [op, self.off(t, True)]
        if op in ("next_char", "prev_char"): return [op, 0 if self.blind else r.randint(0, len(t))]
        if op in ("char_pos", "char_range", "cp_pos", "cp_at"): return [op, self.posn(t)]
        if op in ("cp_sub", "char_sub"):
            return [op, self.posn(t), HUGE if r.random() < 0.25 else self.posn(t)]
        if op in ("ins_cp", "ins_char"): return [op, self.posn(t), self.badcp()]
        if op in ("ins_cps", "ins_chars"): return [op, self.posn(t), self.text(r.randrange(4), self.bad / 2)]
        if op in ("rep_cps", "rep_chars"):
            return [op, self.posn(t), self.posn(t), self.text(r.randrange(4), self.bad / 2)]
        if op == "replace": return [op, self.sub(t), self.text(self.many(r.randrange(4))) if r.random() < 0.8 else self.sub(t), self.limit()]
        if op == "replace_cp":
            return [op, self.intext(t) if r.random() < 0.85 else self.badcp(), self.badcp(), self.limit()]
        if op == "ci_replace": return [op, self.cisub(t), self.text(r.randrange(4)), self.limit()]
        if op == "split": return [op, self.finder(t), self.maxsplit(), r.choice([0, 0, 1])]
        if op == "split_str": return ["split", ["str", self.sub(t)], self.maxsplit(), r.choice([0, 0, 1])]
        if op == "split_nl": return ["split", ["nl"], self.maxsplit(), r.choice([0, 0, 1])]
        if op == "split_ci":
            f = ["cistr", self.cisub(t)] if r.random() < 0.6 else ["ciof", [self.alt(c) if 0 <= c <= 0x10FFFF else c for c in self.chars(t)]]
            return ["split", f, self.maxsplit(), r.choice([0, 0, 1])]
        if op == "join":
            return [op, [self.text(r.randrange(4), 0.1) for _ in range(self.many(r.choice([0, 1, 2, 3, 4, 9])))],
                    self.text(r.randrange(3), 0.1)]
        if op in ("trim_start", "trim_end", "trim"):
            if r.random() < 0.2: return [op, ["space"]]
            if r.random() < 0.25:
                q = [r.choice(t)] if t and max(t) < 128 else [32, 65, 97]
                return [op, ["in", q + self.chars(t)]]
            return [op, self.member(t, False, True, False)]
        if op in ("ci_compare", "ci_equal", "ci_less"):
            return [op, self.cmpto(t)]
        if op == "ci_cp":
            c = self.cp()
            return [op, c, self.alt(c) if r.random() < 0.4 else self.cp()]
        if op == "ci_first": return [op, self.cisub(t), self.off(t)]
        if op == "ci_last": return [op, self.cisub(t), self.off(t, True)]
        if op in ("ci_starts", "ci_ends"): return [op, self.flip(self.affix(t, op[3] == "s"))]
        if op in ("find_escapable", "find_escaped"): return [op, self.off(t)]
        if op == "unescape_next": return [op, r.choice([0, 1, 2])]
        if op == "tok_new": return [op, self.finder(t)]
        if op == "set_new" or op == "set_neg": return [op, r.choice([0, 0, 1])]
        if op == "set_range":
            a = self.badcp()
            if r.random() < 0.04: return [op, a, self.badcp()]
            return [op, a, signed(max(0, a + r.choice([0, 1, 3, 20, 300, -1, -3])))]
        if op == "set_cp": return [op, self.badcp()]
        if op == "set_cps":
            c = self.cp()
            return [op, r.choice([[self.cp() for _ in range(r.randrange(5))], list(range(c, c + r.randrange(6))), [c, c + 1, c + 3, c + 2]])]
        if op in ("set_has", "set_ci"):
            return [op, [self.badcp() for _ in range(6)]]
        if op == "subrange":
            n = lambda: r.choice([-1, 0, 0, 1, 2, 7, 12, 255, 256, 65535, 65536, r.randrange(10 ** r.randrange(1, 10))])
            a, b = n(), n()
            return [op, a, b] + r.choice([[a, b], [a, n()], [n(), b], [n(), n()], [b, a]])
        if op == "subrange_of":
            if self.blind: return [op, 0, 0]
            a, b = sorted((r.randint(0, len(t)), r.randint(0, len(t))))
            if r.random() < 0.4: a = 0
            if r.random() < 0.4: b = len(t)
            return [op, a, b]
        return [op]         # no arguments

    kinds = ("ci",)

    def affix(self, t, start):
        r = self.r
        x = r.random()
        if x < 0.08: return []
        if x < 0.75:
            n = r.randint(0, len(t))
            p = t[:n] if start else t[len(t) - n:]
            if r.random() < 0.25:
                p = p + self.unit() if start else self.unit() + p
            return p
        return self.sub(t)

    def cmpto(self, t):
        r = self.r
        x = r.random()
        if x < 0.2: return self.flip(t)
        if x < 0.35: return self.flip(t) + self.unit()
        if x < 0.5: return self.flip(t[:r.randint(0, len(t))])
        if x < 0.65:
            k = r.randint(0, len(t))
            return self.flip(t[:k]) + self.text(2)
        if x < 0.7: return t + list(r.choice(BAD))
        return self.text()

    def session(self, ops, n, text=None):
        """A text and n calls on it; ops is a dict op -> weight or a list."""
        t = self.text() if text is None else text
        w = list(ops.values()) if isinstance(ops, dict) else [1] * len(ops)
        names = list(ops)
        return [["text", t]] + [self.call(self.r.choices(names, w)[0], t) for _ in range(n)]
