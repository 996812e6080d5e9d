"""Unicode data files, and the library built with tables made from them (Y34)."""
import json, os, random, shutil, subprocess, tempfile
import gen, mkunidata, ylib
from gen import encs, look, unidata
from ylib import Broken

CATS = mkunidata.CATS
CN = 29


class Data:
    """What a Unicode data file says: category, pair and three case offsets of code points."""

    def __init__(self, d=None):
        self.cat = dict(d.cat) if d else {}
        self.dec = dict(d.dec) if d else {}
        self.case = [dict(x) for x in d.case] if d else [{}, {}, {}]   # upper, lower, title
        self.touched = set()

    @staticmethod
    def base():
        """Unicode 16.0 as the specification has it."""
        D, d = unidata(), Data()
        for c in range(0x110000):
            k = look(D["cat"], c)
            if k == CN:
                continue
            d.cat[c] = k
            p = look(D["dec"], c)
            if p:
                d.dec[c] = tuple(D["pairs"][p - 1])
            for i, t in enumerate(("up", "low", "tit")):
                o = look(D[t], c)
                if o:
                    d.case[i][c] = o
        return d

    def plain(self, c):
        return c not in self.dec and not any(c in x for x in self.case)

    def write(self, path, r, long_runs=900):
        """Long stretches of one class as First/Last pairs, at times more than one."""
        q = sorted(self.cat)
        out = []

        def line(c, name, noise=False):
            x = [t.get(c) for t in self.case]
            f = ["%04X" % (c + o) if o else "" for o in x]
            if f[0] and not f[2]:
                f[2] = "%04X" % c           # an empty title case field would mean the upper case form
            dec = " ".join("%04X" % v for v in self.dec[c]) if c in self.dec else ""
            if not dec and noise and r.random() < 0.05:
                dec = r.choice(["<compat> 0061 0301", "<font> 0041", "00C5", "<super> 0061 0301 0302"])
            out.append("%04X;%s;%s;0;L;%s;;;;N;;;%s;%s;%s" % (c, name, CATS[self.cat[c]], dec, f[0], f[1], f[2]))
        i = 0
        while i < len(q):
            j = i
            while j + 1 < len(q) and q[j + 1] == q[j] + 1 and self.cat[q[j + 1]] == self.cat[q[i]] and \
                    self.plain(q[j + 1]) and j - i < 70000:
                j += 1
            if j - i >= long_runs and self.plain(q[i]):
                a = i
                while a <= j:
                    b = min(j, a + r.choice([300, 5000, 100000]))
                    if b == a:
                        line(q[a], "LETTER %X" % q[a])
                    else:
                        line(q[a], "<Range %X, First>" % q[a])
                        line(q[b], "<Range %X, Last>" % q[a])
                    a = b + 1
                i = j + 1
            else:
                line(q[i], "LETTER %X" % q[i], noise=True)
                i += 1
        open(path, "w").write("\n".join(out) + "\n")

    def touch(self, c, k=None):
        self.touched.add(c)
        if k == CN:
            self.cat.pop(c, None)
            self.dec.pop(c, None)
            for x in self.case:
                x.pop(c, None)
        elif k is not None:
            self.cat[c] = k


def arrange(scripts, base, r):
    """A data file with every arrangement of the model in a place of its own."""
    d = Data(base)
    d.cat, d.dec, *d.case = ({c: v for c, v in x.items() if c < 0x3000} for x in (d.cat, d.dec, *d.case))
    texts = []
    scripts = [s[0] for s in scripts]
    r.shuffle(scripts)
    at = 0x10000
    for kind, par, w in scripts:
        if kind == 0:
            at += r.choice([0, 0, 1, 2, 3, 5])
            at += (at ^ par) & 1
            for i, k in enumerate(w):
                d.touch(at + i, k)
            if r.random() < 0.5:
                d.touch(at + len(w), r.choice([4, 5, 8, 0, 1]))
                at += 1
            at += len(w)
        elif kind == 1:
            at = (at + 31) // 32 * 32
            for i in range(32):
                d.touch(at + i, 4)
            part = []
            for i, o in zip((0, 1, 15, 30, 31), w):
                if o:
                    for t in range(3):
                        # the tables for upper, lower and title case see different segments
                        o2 = (o, 2 * o, -o if r.random() < 0.9 else o)[t]
                        d.case[t][at + i] = o2
                        if t == 0:
                            d.case[2].setdefault(at + i, 7)
                part.append(at + i)
            texts.append(part + [at + 2, at + 29])
            at += 32
        else:
            x = [at + i for i in ((0, 1, 2, 3) if par == 0 else (3, 2, 1, 0))]
            m = [at + 4, at + 5]
            for c in x:
                d.touch(c, 4)
            for c in m:
                d.touch(c, 5)
            for i in (1, 2, 3):
                if w[i - 1]:
                    d.dec[x[i]] = (x[w[i - 1][0]], m[w[i - 1][1] - 1])
            texts.append(x)
            for _ in range(6):
                texts.append([r.choice(x)] + [r.choice(x + m + m) for _ in range(5)])
            at += 6
        if at > 0xFF000:
            raise Broken("too many arrangements")
    return d, texts


def perturb(base, r):
    """Another version of Unicode: changed, new and removed characters."""
    d = Data(base)
    texts = []
    def place():
        x = r.random()
        if x < 0.45: return r.choice([0x80, 0x100, 0x370, 0x600, 0x1000, 0x1C80, 0x2C00, 0xA640, 0xFB00]) + r.randrange(0x180)
        if x < 0.8: return 0x10000 + r.randrange(0x3000)
        return r.randrange(0x80, 0xFF000)
    for _ in range(60):                               # classes
        c, n = place(), r.choice([1, 1, 1, 2, 3, 8, 40])
        k = r.choice(list(range(29)) + [CN] * 4)
        q = [k] * n
        if r.random() < 0.35: q = [(i + k) % 2 for i in range(n + 1)]
        elif r.random() < 0.2: q = [r.choice([0, 1, 2, 5, CN]) for _ in range(n + 2)]
        for i, x in enumerate(q):
            d.touch(c + i, x)
        texts.append([c + i for i in range(-1, len(q) + 1)])
    for c in r.sample([ord(x) for x in "!#$%&()*+,-:;<=>?@[]^_`{|}~"], 6):
        d.touch(c, r.choice([18, 21, 17, 12, 19]))
    for _ in range(60):                               # case mappings
        c = place()
        n = r.choice([1, 2, 3, 4, 5, 20, 33])
        o = r.choice([1, -1, 1, 32, -32, 80, -8000 if c > 9000 else 7, 0x100, 10000])
        if r.random() < 0.4:
            far = [x for x in (r.randrange(0x80, 0x10FF00), r.randrange(0x80, 0x3000), 0x10FF00) if x != c]
            o = r.choice(far) - c
        t = r.sample(range(3), r.choice([1, 2, 3]))
        for i in range(n):
            if r.random() < 0.8:
                x = c + i
                if d.cat.get(x) is None: d.touch(x, r.choice([0, 1, 2, 4]))
                d.touched.add(x)
                for k in t:
                    to = x + (o if r.random() < 0.85 else r.choice([1, -1, 17]))
                    if 0x80 <= to < 0x110000:
                        d.case[k][x] = to - x
                if 0 in t: d.case[2].setdefault(x, r.choice([0, 1]))
        texts.append([c + i for i in range(min(n, 12))])
    used = set(d.dec.values())
    marks = [c for c, k in d.cat.items() if 5 <= k <= 7 and c >= 0x300] + [0x300, 0x301, 0x20FF]
    marks = [m for m in sorted(set(marks)) if m not in d.dec and m < 0xFF000]
    for _ in range(25):                               # pairs gone
        c = r.choice(sorted(d.dec))
        del d.dec[c]
        d.touched.add(c)
    for _ in range(40):                               # new pairs, also of pairs
        c = place()
        if c < 0xC0 or c in d.dec: continue
        a = r.choice([r.randrange(0x41, 0x5B), r.choice(sorted(d.dec)), place()])
        p = (a, r.choice(marks))
        q, x = {c, p[1]}, a
        while x in d.dec and x not in q:
            q.add(x); x = d.dec[x][0]
        if x in q or p in used or p[1] == c or c in marks: continue
        # nothing may come to be part of itself
        d.dec[c] = p
        used.add(p)
        if d.cat.get(c) is None: d.touch(c, 4)
        d.touched.update((c, a, p[1]))
        texts.append([c, a, p[1], a, c, p[1], p[1]])
    for t in range(3):
        d.case[t] = {c: o for c, o in d.case[t].items() if o and c in d.cat and (c >= 0x80 or base.case[t].get(c) == o)}
    d.dec = {c: p for c, p in d.dec.items() if c in d.cat}
    for c in d.case[0]:
        d.case[2].setdefault(c, 0)
    return d, texts


def small(base, r, n):
    """Small data files, each with one class and one pair more than the one before it, so that
    tables of many sizes, and last rows of any length, are made."""
    top = r.choice([0x180, 0x250, 0x2B0])
    d = Data(base)
    d.cat, d.dec, *d.case = ({c: v for c, v in x.items() if c < top or 0x300 <= c < 0x370} for x in (d.cat, d.dec, *d.case))
    for c in r.sample(sorted(d.dec), r.randrange(len(d.dec))):
        if c < 0x300 and len(d.dec) > 2:
            del d.dec[c]
            d.touched.add(c)
    at = r.choice([0x400, 0x3000, 0x1F000])
    texts, out = [], []
    have = set(d.dec.values())
    for i in range(n):
        if i:
            d.touch(at, r.choice([0, 1, 2, 3, 4, 18, 21]))
            q = (r.randrange(0x41, 0x7B), r.randrange(0x320, 0x340))
            while q in have:
                q = (r.randrange(0x41, 0x7B), r.randrange(0x320, 0x340))
            have.add(q)
            d.dec[at] = q
            texts.append([at, q[0], q[1], at, at, q[1], q[1]])
            at += r.choice([2, 3, 40])
        e = Data(d)
        e.touched = d.touched | {at - 1, at + 256, 0x10FFFF}
        pairs = [[*p, c] for c, p in sorted(e.dec.items())]
        out.append((e, texts + pairs[:3] + pairs[-6:]))
    return out


BLK = ["blk_class", "blk_preds", "blk_lower", "blk_upper", "blk_title", "blk_decomp"]
OPS = [["lower"], ["upper"], ["title"], ["to_composed"], ["to_decomposed"], ["count_chars"], ["reverse"], ["trim", ["space"]],
       ["is_valid"]]


def sessions(blocks, texts, r):
    out = []
    b = sorted(blocks)
    for i in range(0, len(b), 8):
        out.append([["text", []]] + [[op, k] for k in b[i:i + 8] for op in BLK])
    for q in texts:
        q = [c for c in q if 0 <= c < 0x110000 and not 0xD800 <= c < 0xE000]
        out.append([["text", encs(q)]] + OPS[:5] + r.sample(OPS[5:], 2))
        q = list(q)
        r.shuffle(q)
        out.append([["text", encs(q)], r.choice(OPS[:3]), ["keep"], r.choice(OPS[3:5]), ["keep"], r.choice(OPS[3:5])])
    return out


def make(data):
    """Tables from a data file by the repository's scripts: a directory, or an error."""
    tmp = tempfile.mkdtemp(prefix="ys-tables-")
    sh = os.path.join(ylib.REPO, "tools/unicode_character_tables/make_files.sh")
    try:
        p = subprocess.run(["bash", sh, data], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=120, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    except subprocess.TimeoutExpired:
        return tmp, "the scripts do not end"
    made = [f for f in os.listdir(tmp) if f.endswith((".hpp", ".cpp"))]
    if p.returncode or "Traceback" in p.stdout or not made:
        return tmp, "the scripts fail: " + p.stdout[-1000:]
    return tmp, None
