"""What each check explores: models and their bounds, and the random sessions."""
import gen
from gen import HUGE, enc, encs, look, unidata, utf

ESC = {"frag": [utf(e) for e in gen.ESC], "fragp": 0.6}


def w(s):
    """'a:3 b c' -> {'a': 3, 'b': 1, 'c': 1}"""
    out = {}
    for x in s.split():
        n, _, k = x.partition(":")
        out[n] = int(k or 1)
    return out


# ------------------------------------------------------------------- random sessions
STATEFUL = {"view_set", "pop", "pop_last", "remove", "remove_last", "unescape_next",
            "tok_new", "tok_next", "tok_obs"}


def random_sessions(g, plan, n, calls):
    ops = plan["ops"]
    out = []
    for _ in range(n):
        t = g.text()
        k = max(4, min(calls, 8000 // (len(t) + 1)))
        if any(o in STATEFUL for o in ops):
            k = max(k, min(calls, 40))
        s = g.session(ops, k, t)
        if plan.get("keep") and g.r.random() < 0.35:
            # An editing history: what a call produced is the next text.
            s = [s[0]]
            g.est = len(t)
            for _ in range(max(3, k // 3)):
                s.append(g.call(g.r.choice(list(ops)), t))
                if g.r.random() < 0.4:
                    s.append(["keep"])
                    g.kept()
            g.blind, g.est = False, 0
        out.append(s)
    return out


# ------------------------------------------------------------------------------ sweeps
def interesting(tier):
    """Code points that matter to the tables, those near numbers in the source, and all below a limit."""
    D = unidata()
    if tier == "thorough":
        top = 0x30000
    else:
        top = 0x600
    q = set(range(top))
    for name in ("low", "up", "tit", "dec"):
        T = D[name]
        for b in range(0x1100):
            blk = T["blk"][T["idx"][b] - 1]
            if any(blk):
                q.update(256 * b + i for i in range(256) if blk[i])
    T = D["cat"]
    last = None
    for b in range(0x1100):
        for i, c in enumerate(T["blk"][T["idx"][b] - 1]):
            kind = "M" if 5 <= c <= 7 else "Z" if 22 <= c <= 24 else "L" if c <= 4 else "x"
            if kind != last:
                if last == "M" or kind in "MZ" or b < 0x30:
                    q.update((256 * b + i - 1, 256 * b + i))
            elif kind in "MZ":
                q.add(256 * b + i)
            last = kind
    for a in D["pairs"]:
        q.update(a)
    return {c for c in q if 0 <= c <= 0x10FFFF}


def near_literals(g):
    q = set()
    for c in g.cplits:
        for d in (-2, -1, 0, 1, 2):
            if 0 <= c + d <= 0x10FFFF:
                q.add(c + d)
    return q


def sweep(*calls, chunk=48, sep=None, shuffle=False):
    """Sessions that put every interesting code point through calls on texts of many.
    A call may be a function of (generator, text)."""
    def f(g, tier):
        q = sorted(interesting(tier) | near_literals(g))
        if shuffle:
            g.r.shuffle(q)
        out = []
        for i in range(0, len(q), chunk):
            part = q[i:i + chunk]
            t = []
            for c in part:
                if sep is not None:
                    t += sep
                t += enc(c)
            out.append([["text", t]] + [c(g, t) if callable(c) else c for c in calls])
        return out
    return f


def each(*calls, before=(97,), after=(98,)):
    """The same with one code point per text, for calls that look at one place."""
    def f(g, tier):
        q = sorted(near_literals(g) | (interesting(tier) if tier == "thorough" else set()))
        return [[x for c in q[i:i + 20] for x in
                 [["text", encs(before) + enc(c) + encs(after)]] + [k(g, c) if callable(k) else k for k in calls]]
                for i in range(0, len(q), 20)]
    return f


def case_groups(g, tier):
    """All pairs of code points that are equal ignoring case, and their neighbours."""
    D = unidata()
    out = []
    for group in D["ilists"]:
        us = {c + look(D["up"], c) for c in group}
        q = sorted(set(group) | us)
        s = [["text", encs(q)]]
        for a in q:
            for b in q:
                s.append(["ci_cp", a, b])
            s.append(["ci_cp", a, a + 1])
        out.append(s)
    return out


def case_texts(ops):
    """Those pairs within texts."""
    def f(g, tier):
        D = unidata()
        qs = [sorted(set(x) | {c + look(D["up"], c) for c in x}) for x in D["ilists"]]
        out = []
        for i in range(0, len(qs), 24):
            a = [g.r.choice(q) for q in qs[i:i + 24]]
            b = [g.r.choice(q) for q in qs[i:i + 24]]
            k = len(a) // 2
            t = encs(a)
            s = [["text", t]]
            for op in ops:
                if op in ("ci_equal", "ci_compare", "ci_less", "ci_starts", "ci_ends"):
                    s += [[op, encs(b)], [op, encs(a[:-1] + [a[-1] + 1])], [op, encs(b[:k])], [op, encs(b[k:])]]
                elif op in ("ci_first", "ci_last"):
                    o = 0 if op == "ci_first" else -1
                    s += [[op, encs(b[j:j + 2]), o] for j in range(len(b))]
                elif op == "ff_ci":
                    s += [[f2, ["ci", [c]], o] for c in b for f2, o in (("ff", 0), ("fl", -1))]
                    s += [["ff", ["ciset", 0, [c, c]], 0] for c in b]
                elif op == "ci_replace":
                    s += [[op, encs(b[j:j + 1]), [46], HUGE] for j in range(len(b))]
                elif op == "split_ci":
                    s += [["split", ["cistr", encs(b[j:j + 1])], -1, 0] for j in range(len(b))]
                    s += [["split", ["ciof", b[0::3]], -1, 0]]
            out.append(s)
        return out
    return f


def set_sweep(g, tier):
    """Sets with ranges of several sizes, asked about the code points at their ends, in other case."""
    out = []
    D = unidata()
    for group in D["ilists"]:
        q = sorted(set(group) | {c + look(D["up"], c) for c in group})
        s = [["text", []], ["set_new", g.r.choice([0, 1])], ["set_range", q[0], q[0] + g.r.choice([0, 0, 1, 3])],
             ["set_ci", q + [q[0] + 1, q[-1] - 1, 65, 97]], ["set_has", q]]
        out.append(s)
    return out


def long_texts(calls, lens=(15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025)):
    """Texts of telling lengths: uniform, with something special at the very end or start."""
    def f(g, tier):
        out = []
        for n in sorted(set(lens) | {x + d for x in g.lens if x < 2100 for d in (-1, 0, 1)}):
            for mk in ([97], [0xC3, 0xA9]):
                m = n // len(mk)
                sp = g.unit()
                for t in (mk * m + sp, sp + mk * m, mk * (m // 2) + sp + mk * (m - m // 2)):
                    out.append([["text", t]] + [c(g, t) if callable(c) else list(c) for c in calls])
        return out
    return f


def byte_sweep(*calls):
    """Every byte first and every byte second in a unit, with telling bytes in the other places."""
    def f(g, tier):
        few = [0, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xFF]
        leads = [0x41, 0x80, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF7, 0xF8, 0xFF]
        q = [[a] + e for a in range(256) for e in ([], [0x80], [0xBF, 0x80], [0x80, 0xBF, 0x81], [0x90, 0x80, 0x80, 0x80])]
        q += [[a, b] + e for a in range(0xC0, 256) for b in few for e in ([], [0x80], [0x80, 0xBF])]
        q += [[a, b] + g.r.choice(([], [0x80], [0xBF, 0xBF])) for a in leads for b in range(256)]
        q += [[a, 0xA0, b] + e for a in leads[6:] for b in (range(256) if tier == "thorough" else few) for e in ([], [0x9F])]
        q += [[a, 0x90, 0xA0, b] for a in leads[10:] for b in (range(256) if tier == "thorough" else few)]
        out = []
        for i, t in enumerate(q):
            t = g.r.choice(([], [], [97], [0x80])) + t + g.r.choice(([], [], [98], [0xC3]))
            if i % 20 == 0: out.append([])
            out[-1] += [["text", t]] + [[c[0]] + [len(t) if x is None else x for x in c[1:]] for c in calls]
        return out
    return f


def escape_sweep(*calls):
    """Every byte behind a backslash, digits and what is next to them in every place, numbers and pairs of surrogates at their limits."""
    def f(g, tier):
        q = [[92, b] + x for b in range(256) for x in ([], [49, 49])]
        near = [ord(c) for c in "/09:@AFG`afg"] + [0x80]
        for head, n in (("\\u", 4), ("\\U", 8), ("\\x", 3)):
            for k in range(n):
                for c in near:
                    q.append(utf(head) + [48 + (i == n - 2) for i in range(k)] + [c] + [48 + (i == n - 2) for i in range(k + 1, n)])
                q.append(utf(head) + [48] * k)
        dig = [ord(c) for c in "/013478"]
        q += [[92, a, b, c] for a in dig for b in dig for c in dig]
        edges = [0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xD800, 0xD801, 0xDBFE, 0xDBFF, 0xDC00, 0xDC01,
                 0xDFFE, 0xDFFF, 0xE000, 0xE001, 0xFFFD, 0xFFFE, 0xFFFF]
        q += [utf("\\u%04X\\u%04x" % (a, b)) for a in edges[8:] for b in edges[7:]]
        for c in edges + [0x10000, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000, 0x8000D800, 0xFFFFFFFF]:
            q += [utf(x % c) for x in ("\\U%08X", "\\x%X", "\\x%08x", "\\x0%X!", "\\u%04X", "\\u%04XG")]
        out = []
        for i, e in enumerate(q):
            out.append([["text", e + g.r.choice(([], [33], [48]))]] + [list(c) for c in calls])
        return out
    return f


# Units of which many in a row may matter.
UNITS = [[97], [65], [0xCC, 0x81], [97, 0xCC, 0x81], [0xE2, 0x83, 0x9D], [0xC3, 0xA9], [0xC3, 0x89, 0xCC, 0x81], [0xF0, 0x9F, 0x98, 0x80],
         [10], [13], [13, 10], [10, 13], [0xE2, 0x80, 0xA8], [32], [0xC2, 0xA0], [44], [97, 44], [97, 98], [92], [34], [92, 110], [92, 10],
         utf("\\x41"), utf("\\u00e9"), utf("\\uD800"), utf("\\101"), [0], [1], [0x80], [0xC3], [0xFF], [0xF0, 0x9F], [0xED, 0xA0, 0x80],
         [97, 65], [0xC7, 0x85], [0xC3, 0x9F], [0xE2, 0x84, 0xAA], [0xE1, 0x84, 0x80, 0xE1, 0x85, 0xA1], [9]]


def runs(plan, calls=8):
    """The same unit many times over, between other units."""
    def f(g, tier):
        r = g.r
        out = []
        units = UNITS + [g.unit() for _ in range(12)]
        for u in units if tier == "thorough" else r.sample(units, 26) + [g.unit() for _ in range(6)]:
            for ns in ([8, 9, 15, 16, 17, 19], [20, 24, 31, 32, 33, 40, 41, 48, 50, 63, 64, 65], [80, 99, 100, 101, 127, 128, 129, 130],
                       [150, 199, 200, 201, 255, 256, 257, 260, 300], [400, 500, 511, 512, 513, 600]):
                n = r.choice(ns)
                if g.lens and r.random() < 0.3:
                    n = min(600, r.choice(g.lens) + r.choice([-1, 0, 1]))
                a, b = ([x for _ in range(r.choice([0, 0, 1, 3])) for x in g.unit()] for _ in "ab")
                t = a + u * n + b
                if r.random() < 0.2: t += u * r.choice([1, n]) + g.unit()
                out.append(g.session(plan["ops"], calls, t))
        return out
    return f


def sizable(plan):
    """Texts longer than any small counter or buffer, with each call in turn."""
    def f(g, tier):
        r = g.r
        out = []
        ops = [o for o in plan["ops"] if o != "tok_obs"]
        for size, k, rounds in ((1100, 5, 4), (5000, 4, 3), (65540, 2, 2)) + (((300000, 2, 2),) if tier == "thorough" else ()):
            todo = ops * rounds
            r.shuffle(todo)
            while todo:
                u = r.choice(UNITS) if r.random() < 0.6 else [x for _ in range(r.choice([1, 2, 3, 7])) for x in g.unit()]
                u = u or [97]
                n = (size + r.choice([0, 1, 2, 5])) // (len(u) if r.random() < 0.5 and size > 2000 else 1)
                n = min(n, 2 * size // len(u))
                some = lambda: [x for _ in range(r.choice([0, 1, 4, 12])) for x in g.unit()]
                t = some() + u * n + some()
                if r.random() < 0.5: t = some() + u * (n // 2) + some() + u * (n - n // 2) + some()
                s = [["text", t]]
                for o in todo[:k]:
                    if o == "from_utf32": s.append([o, [r.choice([97, 233, 8364])] * (size + r.choice([-5, -4, 0, 60]))])
                    else: s.append(g.call(o, t))
                    if o == "tok_new": s += [["tok_next"]] * 3
                del todo[:k]
                out.append(s)
        return out
    return f


# Units with parts that belong together: where a text is processed piecemeal, one may get between them.
GLUE = [[0xF0, 0x9F, 0x98, 0x80], [0xE2, 0x82, 0xAC], [101, 0xCC, 0x81], [13, 10], [0x80], [0xC3], [0xC9, 0x90]]


PAIRS = [[101, 0xCC, 0x81], [101, 0xCC, 0x82, 0xCC, 0x81], [0xC3, 0xAA, 0xCC, 0x81], [0xE1, 0xBF, 0x86]]
NLS = [[13, 10], [13], [10], [0xE2, 0x80, 0xA8], [0xC2, 0x85]]
ESCS = [utf(x) for x in ("\\n", "\\uD83D\\uDE00", "\\u00e9", "\\x41", "\\101", "\\U0001F600", "\\uD800", "\\\n")] + [[34], [1]]
CHARS = [[101, 0xCC, 0x81], [101, 0xCC, 0x81, 0xCC, 0x82], [13, 10], [0xF0, 0x9F, 0x98, 0x80], [0xCC, 0x81]]


def seams(plan):
    """A unit at every place around the sizes that buffers tend to have."""
    def f(g, tier):
        r = g.r
        out = []
        ops = [o for o in plan["ops"] if o not in CPOPS and not o.startswith("set_")]
        ends = plan.get("glue", GLUE)
        if not ops: return []
        for size in (16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192) + ((16384, 32768, 65536) if tier == "thorough" else ()):
            for d in (-3, -2, -1, 0, 1):
                for fill in ([120], [101], [0xC3, 0xA6]) if size < 4096 else ([120],):
                    for u in r.sample(ends, 2):
                        t = fill * (size + d) + u + g.unit()
                        if r.random() < 0.3: t += u * 3 + fill * size + u
                        out.append(g.session(ops, 2, t))
        return out
    return f


def strays(*calls, tail=()):
    """Continuation bytes in numbers at which a small counter starts again, behind each kind of byte."""
    def f(g, tier):
        r = g.r
        out = []
        heads = [[97], [0xC3], [0xE2], [0xF0], [0xF8], [0xFF], [0xE2, 0x82, 0xAC], []]
        for n in [*range(252, 263), *range(508, 518), 1023, 1024, 1025] + [*range(65534, 65540)] * (1 if tier == "quick" else 2):
            for h in heads if n < 600 else r.sample(heads, 2):
                for a in ([], [97]) if n < 600 else ([],):
                    t = a + h + [r.choice([0x80, 0xBF, 0xA9])] * n
                    t += tail
                    out.append([["text", t]] + [c if isinstance(c, list) else [c, 0, len(t)] for c in calls])
        return out
    return f


def call(op):
    return lambda g, t: g.call(op, t)


def big(g, tier):
    """Large texts: time has to stay proportionate."""
    H = HUGE
    n = 1000000 if tier == "quick" else 3000000
    kinds = [([97], n, [98]), ([97, 44], n // 2, []), ([0xCC, 0x81], n // 2, [97]), ([13, 10], n // 2, [97]),
             ([92, 110], n // 2, []), (utf("\u00e9") + [0xCC, 0x81], n // 4, []), ([0x80], n, []),
             ([92, 10], n // 2, [97]), ([97] * 50 + [98], n // 51, []), ([92, 120], 1, [48] * 200000),
             ([0xF0, 0x9F, 0x98, 0x80], n // 4, []), ([34], n, [])]
    ops = [["to_utf32"], ["is_valid"], ["repair", 65533], ["repair_in", 63], ["count_chars"], ["count_cps"],
           ["reverse"], ["lower"], ["upper"], ["title"], ["to_decomposed"], ["to_composed"], ["escape_json"],
           ["has_escapable"], ["unescape"], ["unescape_in"], ["has_escaped"], ["append", 8364],
           ["find_first", [97, 98], 0], ["find_last", [98, 97], -1], ["ff", ["in", [98]], 0], ["fl", ["in", [98]], -1],
           ["ff", ["set", 0, [0x110000, -1]], 0], ["ff", ["ciset", 0, [0x1F000, 0x10FFFF]], 0], ["fl", ["ciset", 0, [0x1F700, 0x7FFFFFFF]], -1],
           ["ffnl", 0], ["flnl", -1], ["char_pos", H], ["char_pos", -H], ["char_range", 1000], ["cp_pos", -H], ["cp_at", 5],
           ["cp_sub", 1, -1], ["char_sub", 1, -1], ["ins_cps", -1, [120]], ["ins_chars", -1, [120]], ["ins_chars", 1, [120]],
           ["rep_cps", 1, -1, []], ["rep_chars", -5, -1, [120]], ["replace", [97], [98, 99], H], ["replace", [97], [98, 99], -H],
           ["replace", [97], [], -1], ["replace_cp", 97, 8364, H], ["replace", [], [97], H], ["split", ["str", [44]], -1, 0],
           ["split", ["nl"], -1, 1], ["split", ["of", [44]], -1, 1], ["split", ["cistr", [65]], -1, 0],
           ["split", ["ciof", [65]], -1, 0], ["trim", ["in", [97, 98]]], ["trim", ["odd", []]], ["trim", ["space"]],
           ["ci_first", [98, 97], 0], ["ci_last", [98, 98], -1], ["ci_replace", [65], [120, 120], H],
           ["ci_replace", [65], [120, 120], -H], ["ci_starts", [65]], ["ci_compare", [65] * 100], ["find_escapable", 0],
           ["find_escaped", 0], ["pop"], ["remove_last"], ["unescape_next", 0], ["tok_new", ["str", [44]]], ["tok_next"]]
    return [[["text_rep", *k]] + ops for k in kinds]


# ------------------------------------------------------------------------------- pools
def pools(g, scripts, n):
    """Work for the purity check: texts with one call, walks, editing histories, in pools
    whose members are much alike, so that confusing one with another shows."""
    out = []
    ops = list(ALLOPS)
    walks = [["pop", "pop_last", "remove", "remove_last"], ["unescape_next"], ["tok_next", "tok_obs"],
             ["set_range", "set_cp", "set_cps", "set_neg", "set_has", "set_ci", "set_print"]]
    scripts = [s for s in scripts if s[0][0] == "text"]
    g.r.shuffle(scripts)
    for i in range(n):
        pool = []
        g.fragp = 0.25 if i % 3 == 0 else 0
        base = g.text()
        some = g.r.sample(ops, g.r.choice([2, 3, 6, 20]))
        for _ in range(40):
            x = g.r.random()
            t = base
            if x < 0.2: t = g.text()
            elif x < 0.35: t = base[:g.r.randint(0, len(base))]
            elif x < 0.5 and base:
                t = list(base); t[g.r.randrange(len(t))] = g.r.choice([65, 97, 44, 46])     # same size
            elif x < 0.55: t = g.flip(base)
            k = g.r.random()
            if k < 0.6:
                pool.append([t, g.call(g.r.choice(some), t)])
            elif k < 0.75:
                a = g.r.choice(walks)
                m = [g.call(g.r.choice(a), t) for _ in range(g.r.choice([3, 6, 10]))]
                if a[0] == "tok_next": m = [g.call("tok_new", t)] + m
                pool.append([t] + m)
            elif k < 0.9:
                m = []
                g.est = len(t)
                for _ in range(4):
                    m += [g.call(g.r.choice(some), t), ["keep"]]
                    g.kept()
                g.blind, g.est = False, 0
                pool.append([t] + m)
            elif scripts:
                s = scripts.pop()
                pool.append([s[0][1]] + s[1:])
        out.append(pool)
    # The same call on many texts of one size, and many arguments of one size.
    for op in ALLOPS:
        if op in STATEFUL or op.startswith("set_") or op in ("tok_new", "constants"):
            continue
        k = g.r.choice([3, 5, 9])
        fill = [encs(q) for q in ([65, 97], [98, 44], [0xE9], [0x301], [0x20AC], [0x1F600], [10], [13, 10], [92, 110], [32], [46], [92], [0xC9])]
        use = g.r.sample(fill, g.r.choice([3, 6, len(fill)]))
        pool = []
        one = g.call(op, [97] * k)
        for _ in range(24):
            t = []
            while len(t) < k:
                u = g.r.choice(use)
                t += u if len(t) + len(u) <= k else [g.r.choice([65, 97, 98, 44, 46])]
            pool.append([t, one if g.r.random() < 0.5 else g.call(op, t)])
        out.append(pool)
    # Calls that raise half way, among the same calls on pieces of the same text.
    for op in ALLOPS:
        if op in STATEFUL or op.startswith("set_") or op in ("tok_new", "constants"):
            continue
        pool = []
        base = []
        while len(base) < 12:
            base += g.r.choice(fill)
        one = g.call(op, base)
        for _ in range(24):
            i = g.r.randrange(len(base))
            t = base[g.r.choice([0, 0, i]):][:g.r.randrange(1, 13)]
            if g.r.random() < 0.4: t = [g.r.choice([120, 97, 44])] + t
            if g.r.random() < 0.45: t = t + g.r.choice([[0xFF], [0xC3], [0xE2, 0x82], [92, 120], [92, 117, 48], [0xF8, 0x80]])
            if g.r.random() < 0.3: t = t + [g.r.choice([120, 97, 44])]
            pool.append([t, one if g.r.random() < 0.4 else g.call(op, t)])
        out.append(pool)
    # Code points near each other, in any order.
    for op in CPOPS:
        for n in (24, 64, 300):
            b = g.cp()
            out.append([[[], [op, max(0, min(0x10FFFF, b + g.r.randrange(-n, n)))]] for _ in range(40)])
        out.append([[[], [op, g.cp()]] for _ in range(40)])
        q = g.r.sample(CASEFAM, 40)
        out.append([[[], [op, c]] for c in q])
    return out


CPOPS = ("cls", "preds", "cp_case", "decomp", "from_cp", "append_copy")
CASEFAM = [c + d for c in gen.CASE + gen.MARKS + gen.SPACES + gen.EDGES for d in (0, 1) if c + d <= 0x10FFFF]
ALLOPS = w("append append_copy from_utf32 from_cp to_utf32 decode_next decode_prev safe_next safe_prev skip_next "
           "skip_prev is_valid repair repair_in find_first find_last starts_with ends_with contains ff fl ff_ci fl_ci "
           "ffnl flnl count_chars char_pos char_range next_char prev_char count_cps cp_pos cp_at cp_sub char_sub ins_cp "
           "ins_cps ins_char ins_chars rep_cps rep_chars reverse replace replace_cp split split_str split_nl split_ci "
           "join trim_start trim_end trim cp_case lower upper title ci_compare ci_equal ci_less ci_cp ci_first ci_last "
           "ci_starts ci_ends ci_replace cls preds decomp to_decomposed to_composed escape_json find_escapable "
           "has_escapable unescape unescape_in find_escaped has_escaped view_set pop pop_last remove remove_last "
           "unescape_next tok_new tok_obs tok_next set_new set_neg set_range set_cp set_cps set_has set_ci set_print subrange subrange_of u8 constants")

# bound: (quick, thorough); random: (sessions, calls each).
PLANS = {
    "Y01": {"modules": ["MC_Y01"], "bound": (1, 2), "ops": w("append append_copy from_cp from_utf32"),
            "random": (300, 25), "gen": {"fam": w("edges:4 any:4 wide lits:2 ascii")}, "keep": True},
    "Y02": {"modules": ["MC_Y02"], "bound": (3, 4), "ops": w("from_utf32:2 to_utf32"), "random": (1500, 8), "keep": True,
            "gen": {"longs": 0.06, "bad": 0.35, "fam": w("edges:2 any:3 wide:2 lits:2 ascii:2")},
            "extra": [sweep(["to_utf32"]), byte_sweep(["to_utf32"]), long_texts([["to_utf32"]])]},
    "Y03": {"modules": ["MC_Y03"], "bound": (3, 4), "ops": w("decode_next:2 safe_next:2 view_set pop:5"),
            "random": (800, 25), "gen": {"bad": 0.5, "fam": w("edges:2 any:3 wide:2 ascii:2 lits")},
            "extra": [strays("decode_next", "safe_next", ["pop"], ["pop"]), each(["decode_next", 1, 2], ["safe_next", 0, 1], ["pop"], ["pop"], ["pop"]),
                      byte_sweep(["decode_next", 0, None], ["pop"], ["pop"], ["safe_next", 0, None])]},
    "Y04": {"modules": ["MC_Y04"], "bound": (3, 4), "ops": w("decode_prev:2 safe_prev:2 view_set pop_last:5"),
            "random": (800, 25), "gen": {"bad": 0.5, "fam": w("edges:2 any:3 wide:2 ascii:2 lits")},
            "extra": [strays("decode_prev", "safe_prev", ["pop_last"], ["pop_last"]), each(["pop_last"], ["pop_last"], ["pop_last"]),
                      byte_sweep(["decode_prev", 0, None], ["pop_last"], ["pop_last"], ["safe_prev", 0, None])]},
    "Y05": {"modules": ["MC_Y05"], "bound": (3, 4), "ops": w("skip_next:2 skip_prev:2 view_set remove:3 remove_last:3"),
            "random": (800, 25), "gen": {"bad": 0.6, "fam": w("edges any:2 wide:3 ascii:2 lits")}, "extra": [strays("skip_next", "skip_prev", ["remove"], ["remove"], ["remove_last"], ["remove_last"], ["remove_last"], ["remove_last"], tail=(97, 0x80)), strays("skip_prev", ["remove_last"], ["remove_last"]),
                      byte_sweep(["skip_next", 0, None], ["skip_prev", 0, None], ["remove"], ["remove_last"])]},
    "Y06": {"modules": ["MC_Y06"], "bound": (3, 4), "ops": w("is_valid repair repair_in"), "random": (2500, 6), "keep": True,
            "gen": {"bad": 0.7, "longs": 0.04, "fam": w("edges any:2 wide:3 ascii:2 lits")},
            "extra": [strays(["is_valid"], ["repair", 0xFFFD], ["repair_in", 63]), sweep(["is_valid"], ["repair", 63]), byte_sweep(["is_valid"], ["repair", 63]), long_texts([["is_valid"], ["repair", 65533], ["repair_in", 63]])]},
    "Y07": {"modules": ["MC_Y07"], "bound": (4, 6), "ops": w("find_first:3 find_last:3 starts_with ends_with"),
            "random": (900, 25), "gen": {"longs": 0.04}, "extra": [long_texts([call("find_first"), call("find_last"), call("ends_with")])]},
    "Y08": {"modules": ["MC_Y08"], "bound": (2, 4), "ops": w("ff:3 fl:3 contains:2"), "random": (900, 22), "gen": {"bad": 0.35},
            "extra": [sweep(["ff", ["ge", [0x110000]], 0], ["fl", ["in", []], -1]), each(
                lambda g, c: ["ff", ["in", [c]], 0], lambda g, c: ["fl", ["in", [c]], -1], lambda g, c: ["contains", c],
                lambda g, c: ["ff", ["set", 0, [c, c]], 0]), long_texts([call("ff"), call("fl")])]},
    "Y09": {"modules": ["MC_Y09"], "glue": NLS, "bound": (3, 5), "ops": w("ffnl:3 flnl:3 split_nl:3"), "random": (1100, 18),
            "gen": {"fam": w("nl:5 ascii:2 wide edges lits"), "bad": 0.25},
            "extra": [sweep(["split", ["nl"], -1, 0], ["flnl", -1], ["ffnl", 0]), each(["ffnl", 0], ["flnl", -1]),
                      long_texts([["ffnl", 0], ["flnl", -1], ["split", ["nl"], -1, 0]])]},
    "Y10": {"modules": ["MC_Y10"], "glue": CHARS, "bound": (3, 4), "ops": w("count_chars char_pos:3 char_range:3 next_char:2 prev_char:2"),
            "random": (900, 22), "gen": {"fam": w("marks:5 ascii:2 wide:2 edges any pairs lits")},
            "extra": [strays(["count_chars"], ["char_pos", -1], ["char_pos", 1], ["char_range", -1]), sweep(["count_chars"], ["char_pos", 40], ["char_pos", -40], ["char_range", -20], sep=[97]),
                      each(["next_char", 0], ["char_range", -1], ["count_chars"])]},
    "Y11": {"modules": ["MC_Y11"], "bound": (3, 5), "ops": w("count_cps cp_pos:3 cp_at:3"), "random": (1000, 22),
            "gen": {"bad": 0.5, "fam": w("marks ascii:2 wide:2 edges any:2 lits")}, "extra": [strays(["count_cps"], ["cp_pos", -1], ["cp_pos", -2], ["cp_pos", 1], ["cp_pos", 2], ["cp_at", -1], ["cp_at", 0]), byte_sweep(["count_cps"], ["cp_pos", -2], ["cp_at", 1])]},
    "Y12": {"modules": ["MC_Y12"], "glue": CHARS, "bound": (2, 4), "ops": w("cp_sub char_sub"), "random": (900, 24),
            "gen": {"fam": w("marks:3 ascii:2 wide:2 edges any")}},
    "Y13": {"modules": ["MC_Y13"], "glue": CHARS, "bound": (2, 4), "ops": w("ins_cp ins_cps ins_char ins_chars"), "random": (900, 20), "keep": True,
            "gen": {"fam": w("marks:3 ascii:2 wide:2 edges any lits")}},
    "Y14": {"modules": ["MC_Y14"], "glue": CHARS, "bound": (2, 3), "ops": w("rep_cps rep_chars"), "random": (900, 20), "keep": True,
            "gen": {"fam": w("marks:3 ascii:2 wide:2 edges any")}},
    "Y15": {"modules": ["MC_Y15"], "bound": (4, 6), "ops": w("replace:3 replace_cp:2"), "random": (1200, 18), "keep": True,
            "gen": {"bad": 0.15}, "extra": [long_texts([call("replace"), call("replace_cp")])]},
    "Y16": {"modules": ["MC_Y16"], "bound": (2, 4), "ops": w("split:3 split_str:2 join:2"), "random": (1100, 18),
            "extra": [long_texts([call("split"), call("split_str")])]},
    "Y17": {"modules": ["MC_Y17"], "bound": (5, 7), "ops": w("tok_new:2 tok_next:9 tok_obs:2"), "random": (900, 25)},
    "Y18": {"modules": ["MC_Y18"], "bound": (3, 5), "ops": w("trim_start trim_end trim"), "random": (1200, 18),
            "gen": {"fam": w("spaces:5 ascii:2 wide edges any lits"), "bad": 0.2},
            "extra": [each(["trim", ["space"]], before=(32,), after=(32,)), each(["trim_start", ["space"]], ["trim_end", ["space"]], before=(), after=()),
                      each(lambda g, c: ["trim", ["in", [c]]], before=(), after=())]},
    "Y19": {"modules": ["MC_Y19"], "glue": CHARS, "bound": (3, 5), "ops": w("reverse"), "random": (4000, 2), "keep": True,
            "gen": {"fam": w("marks:5 ascii:2 wide:2 edges any:2 pairs nl lits"), "longs": 0.05},
            "extra": [sweep(["reverse"], sep=[97]), long_texts([["reverse"]])]},
    "Y20": {"modules": ["MC_Y20"], "bound": (1, 2), "ops": w("cp_case"), "random": (200, 40),
            "gen": {"fam": w("case:3 lits:3 any:3 edges")}},
    "Y21": {"modules": ["MC_Y21"], "bound": (3, 5), "ops": w("lower upper title"), "random": (2500, 5), "keep": True,
            "gen": {"fam": w("case:5 ascii:3 marks wide edges any lits nl"), "longs": 0.04},
            "extra": [sweep(["lower"], ["upper"], ["title"]), sweep(["title"], sep=[46]), sweep(["title"], sep=[97], shuffle=True),
                      long_texts([["lower"], ["upper"], ["title"]])]},
    "Y22": {"modules": ["MC_Y22"], "bound": (2, 3), "ops": w("ci_compare:2 ci_equal:2 ci_less:2 ci_cp"), "random": (900, 20),
            "gen": {"fam": w("case:5 ascii:2 wide edges any lits"), "bad": 0.2},
            "extra": [case_groups, case_texts(["ci_equal", "ci_compare", "ci_less"])]},
    "Y23": {"modules": ["MC_Y23"], "bound": (2, 4), "ops": w("ci_first:3 ci_last:3 ci_starts ci_ends ff_ci fl_ci"),
            "random": (900, 20), "gen": {"fam": w("case:5 ascii:3 wide edges any lits"), "bad": 0.2},
            "extra": [case_texts(["ci_first", "ci_last", "ci_starts", "ci_ends", "ff_ci"])]},
    "Y24": {"modules": ["MC_Y24"], "bound": (3, 4), "ops": w("ci_replace:2 split_ci:2"), "random": (1200, 15),
            "gen": {"fam": w("case:5 ascii:3 wide edges any lits"), "bad": 0.15},
            "extra": [case_texts(["ci_replace", "split_ci"])]},
    "Y25": {"modules": ["MC_Y25"], "bound": (1, 2), "ops": w("cls preds"), "random": (200, 40),
            "gen": {"fam": w("any:3 lits:3 edges marks spaces case")}},
    "Y26": {"modules": ["MC_Y26"], "glue": PAIRS, "bound": (2, 3), "ops": w("to_decomposed:4 decomp"), "random": (1500, 5), "keep": True,
            "gen": {"fam": w("pairs:6 marks:2 ascii:2 case any edges lits wide"), "longs": 0.04},
            "extra": [sweep(["to_decomposed"]), long_texts([["to_decomposed"]])]},
    "Y27": {"modules": ["MC_Y27"], "glue": PAIRS, "bound": (3, 5), "ops": w("to_composed"), "random": (3500, 3), "keep": True,
            "gen": {"fam": w("pairs:8 marks:4 ascii:3 case any edges lits wide"), "longs": 0.04},
            "extra": [sweep(["to_composed"]), sweep(["to_composed"], sep=[0xCC, 0x81]), long_texts([["to_composed"]])]},
    "Y28": {"modules": ["MC_Y28"], "glue": ESCS, "bound": (3, 5), "ops": w("escape_json:2 find_escapable:3 has_escapable unescape"), "random": (1500, 12),
            "keep": True, "gen": {"fam": w("ctrl:6 ascii:2 wide edges any lits"), "longs": 0.04},
            "extra": [sweep(["has_escapable"], ["escape_json"], ["keep"], ["unescape"]), long_texts([["escape_json"], ["keep"], ["unescape"], ["has_escapable"]])]},
    "Y29": {"modules": ["MC_Y29"], "glue": ESCS, "bound": (3, 4), "ops": w("unescape:3 unescape_in:2 find_escaped:2 has_escaped"), "random": (2500, 7),
            "gen": {"fam": w("ctrl ascii:2 wide edges any"), "bad": 0.15, **ESC, "longs": 0.03}, "keep": True,
            "extra": [escape_sweep(["unescape"], ["find_escaped", 0]), long_texts([["unescape"], ["unescape_in"], ["has_escaped"]])]},
    "Y30": {"modules": ["MC_Y30"], "glue": ESCS, "bound": (4, 6), "ops": w("unescape_next:9 view_set pop"), "random": (1200, 14),
            "gen": {"fam": w("ctrl ascii:2 wide edges any"), "bad": 0.2, **ESC},
            "extra": [escape_sweep(["unescape_next", 0], ["unescape_next", 0], ["pop"])]},
    "Y31": {"modules": ["MC_Y31"], "bound": (8, 9), "ops": w("set_new set_neg set_range:3 set_cp:4 set_cps:2 set_has:4 set_ci:3 set_print"),
            "random": (700, 25), "gen": {"fam": w("case:4 ascii:4 edges wide lits:2")}, "extra": [set_sweep]},
    "Y32": {"modules": ["MC_Y32"], "bound": (2, 3), "ops": ALLOPS, "random": (2500, 25), "keep": True, "validator": "Safe",
            "gen": {"bad": 0.6, "longs": 0.05, "fragp": 0.15, "frag": ESC["frag"]}, "extra": [big], "opts": ("--brief", "5000")},
    "Y33": {"modules": ["MC_Y33"], "bound": (2, 3), "gen": {"frag": ESC["frag"]}},
    "Y34": {"modules": ["MC_Y34"], "bound": (1, 2)},
    "Y35": {"modules": ["MC_Y35"], "bound": (1, 2), "ops": w("subrange:3 subrange_of:3 u8"), "random": (200, 20)},
}
for _p in PLANS.values():
    if "ops" in _p and _p.get("validator") != "Safe":
        _p["extra"] = [*_p.get("extra", ()), runs(_p), sizable(_p), seams(_p)]
