#!/usr/bin/env python3
"""Builds /verif/spec/unidata.json, the Unicode 16.0 tables used by the
specification, from the Unicode character database file in /repo/data.

Run by hand only; the result is committed.  The checks never regenerate it, so
that the oracle stays fixed while /repo changes.  The sha256 of the source file
is recorded in the result.
"""
import hashlib, json, sys
CATS = "Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Cs Co Cn".split()
N = 0x110000


def blocks(tab):
    seen, idx, out = {}, [], []
    for i in range(0, N, 256):
        b = tuple(tab[i:i + 256])
        if b not in seen:
            seen[b] = len(out) + 1
            out.append(list(b))
        idx.append(seen[b])
    return {"idx": idx, "blk": out}


def tables(raw):
    cat = [29] * N
    low, up, tit, dec = [0] * N, [0] * N, [0] * N, [0] * N
    pairs = []
    first = None
    for line in raw.decode().splitlines():
        p = line.split(";")
        c = int(p[0], 16)
        k = CATS.index(p[2])
        if p[1].endswith(", First>"):
            first = c
            continue
        if p[1].endswith(", Last>"):
            for i in range(first, c + 1):
                cat[i] = k
            first = None
            continue
        cat[c] = k
        if p[12]: up[c] = int(p[12], 16) - c
        if p[13]: low[c] = int(p[13], 16) - c
        # Field 14 empty: the title case form is the upper case form.
        if p[14]: tit[c] = int(p[14], 16) - c
        elif p[12]: tit[c] = up[c]
        if p[5] and p[5][0] != "<":
            v = [int(x, 16) for x in p[5].split()]
            if len(v) == 2:
                pairs.append(v)
                dec[c] = len(pairs)
    comp = [0] * N
    lists = {}
    for c in range(N):
        if dec[c]:
            a, b = pairs[dec[c] - 1]
            lists.setdefault(a, []).append([b, c])
    clists = []
    for a in sorted(lists):
        clists.append(sorted(lists[a]))
        comp[a] = len(clists)
    inv = [0] * N
    ups = {}
    for c in range(N):
        if up[c]:
            ups.setdefault(c + up[c], []).append(c)
    ilists = []
    for u in sorted(ups):
        ilists.append(ups[u])
        inv[u] = len(ilists)
    return {"sha256": hashlib.sha256(raw).hexdigest(), "cat": blocks(cat), "low": blocks(low), "up": blocks(up), "tit": blocks(tit),
           "dec": blocks(dec), "pairs": pairs, "comp": blocks(comp), "clists": clists,
           "inv": blocks(inv), "ilists": ilists}


if __name__ == "__main__":
    SRC = sys.argv[1] if len(sys.argv) > 1 else "/repo/data/unicode/UnicodeData16.0.0.txt"
    DST = sys.argv[2] if len(sys.argv) > 2 else "/verif/spec/unidata.json"
    res = tables(open(SRC, "rb").read())
    json.dump(res, open(DST, "w"), separators=(",", ":"))
    for k in ("cat", "low", "up", "tit", "dec", "comp", "inv"):
        print(k, len(res[k]["blk"]))
