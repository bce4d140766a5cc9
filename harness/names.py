"""Builds unames.icu items, in many layouts, from abstract names data.

Written from the format description in ICU (unames.cpp, gennames), and
independent of the reader in /repo.
"""
import struct

LITERALS = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -;"


def nibbles(lengths):
    out = []
    for n in lengths:
        if n < 12: out.append(n)
        else: out += [0xC | (n - 12) >> 4, (n - 12) & 15]
    if len(out) % 2: out.append(0)
    return bytes(a << 4 | b for a, b in zip(out[::2], out[1::2]))


class Coder:
    """A random token table, and the encoding of strings with it."""

    def __init__(self, rnd, words, leads, plain):
        self.rnd = rnd
        free = [b for b in range(256) if b not in LITERALS]
        style = plain
        leadBytes = list(range(1, leads + 1))
        singles = [b for b in free if b not in leadBytes]
        if leads == 0 and rnd.random() < .5: singles = [b for b in singles if b < 32]
        codes = [bytes([b]) for b in rnd.sample(singles, min(len(singles), len(words) // (3 if leads else 1)))] if style else []
        rest = max(0, len(words) - len(codes))
        doubles = [bytes([l, t]) for l in leadBytes for t in range(256) if t != 0x3B]
        rnd.shuffle(doubles)
        codes += doubles[:rest]
        rnd.shuffle(codes)
        self.code = dict(zip(words, codes))
        count = max([256 * (leads + 1) if leads else 0] + [c[0] + 1 for c in codes if len(c) == 1] + [0])
        if rnd.random() < .4: count = max(count, rnd.choice([0x3B, 0x3C, 0x80, 256]))
        self.tokens = [0xFFFF] * count
        for b in leadBytes: self.tokens[b] = 0xFFFE
        self.strings = b""
        for w, c in self.code.items():
            self.tokens[c[0] if len(c) == 1 else c[0] << 8 | c[1]] = len(self.strings)
            self.strings += w.encode() + b"\0"
        self.byLength = sorted(self.code, key=len, reverse=True)

    def encode(self, s):
        out, i = b"", 0
        while i < len(s):
            w = next((w for w in self.byLength if s.startswith(w, i) and self.rnd.random() < .9), None)
            if w: out += self.code[w]; i += len(w)
            else: out += s[i].encode(); i += 1
        return out


def build(rnd, fields, ranges, words, leads, plain):
    """fields: for names, Unicode 1.0 names, comments and aliases a {code
    point: text}.  Drops those that do not fit, and returns (item bytes,
    fields)."""
    coder = Coder(rnd, words, leads, plain)
    lines, kept = {}, [{}, {}, {}, {}]
    for c in sorted(set().union(*fields)):
        s = b";".join(coder.encode(f.get(c, "")) for f in fields).rstrip(b";")
        if rnd.random() < .2: s += b";" * rnd.randrange(4 - s.count(b";"))
        if len(s) > 75: continue
        lines[c] = s
        for k, f in zip(kept, fields):
            if c in f: k[c] = f[c]
    groups = sorted({c >> 5 for c in lines})
    groupTable, strings = b"", b"" if rnd.random() < .5 else b"\x33" * rnd.randrange(90000)
    for g in groups:
        group = [lines.get(g << 5 | i, b"") for i in range(32)]
        groupTable += struct.pack("<HHH", g, len(strings) >> 16, len(strings) & 0xFFFF)
        strings += nibbles(map(len, group)) + b"".join(group)
    alg = b""
    for r in ranges:
        if r["type"] == 0: body, variant = r["prefix"].encode() + b"\0", r["digits"]
        else:
            body, variant = struct.pack(f"<{len(r['elements'])}H", *map(len, r["elements"])) + r["prefix"].encode() + b"\0", len(r["elements"])
            body += b"".join(e.encode() + b"\0" for f in r["elements"] for e in f)
        body += b"\0" * (-len(body) % 4)
        alg += struct.pack("<IIBBH", r["first"], r["last"], r["type"], variant, 12 + len(body)) + body
    tokens = struct.pack(f"<H{len(coder.tokens)}H", len(coder.tokens), *coder.tokens)
    o1 = 16 + len(tokens)
    t = coder.strings + b"\0" * ((o1 + len(coder.strings)) % 2)
    o2 = o1 + len(t)
    g = struct.pack("<H", len(groups)) + groupTable
    o3 = o2 + len(g)
    strings += b"\0" * (-(o3 + len(strings)) % 4)
    o4 = o3 + len(strings)
    return struct.pack("<IIII", o1, o2, o3, o4) + tokens + t + g + strings + struct.pack("<I", len(ranges)) + alg, kept


WORDS = """LATIN CAPITAL SMALL LETTER WITH ACUTE GRAVE DIGIT SIGN MARK VOWEL ARABIC CYRILLIC ABOVE BELOW OF AND SYLLABLE
RADICAL HIEROGLYPH COMBINING DOUBLE LEFT RIGHT ARROW TONE FULL STOP""".split()


def random(rnd):
    """(item bytes without header, abstract item) of a random names item."""
    vocabulary = list(dict.fromkeys(rnd.sample(WORDS, rnd.randrange(3, len(WORDS))) + [w + " " for w in rnd.sample(WORDS, 5)]
                                    + ["".join(rnd.choices("ABCDEFGHIJKLMNOPQRSTUVWXYZ", k=rnd.randrange(1, 5))) for _ in range(rnd.randrange(40))]))
    taken, ranges = set(), []
    for i in range(rnd.choice([0, 1, 2, 4, 7])):
        first = rnd.choice([0x3400, 0x4E00, 0xAC00, 0x17000, 0x20000, 0x1B170, 0xFFF0, 0xFFFE0, 0xFFFC0, 0x10F000, rnd.randrange(0x10F000)]) + rnd.choice([0, 0, 5, 31, 37])
        n = rnd.choice([1, 2, 7, 20, 33, 64, 200, 700])
        if any(first <= r["last"] + 1 and r["first"] <= first + n for r in ranges) or first + n > 0x110000: continue
        if rnd.random() < .6:
            r = {"type": 0, "prefix": f"ALG{i} " + rnd.choice(["IDEOGRAPH-", "X ", ""]), "digits": rnd.choice([4, 5, 6]), "elements": []}
        else:
            letters = ["ABCD", "EFGHI", "JKLM", "NOPQ", "RSTU", "VWXYZ"]
            fs = []
            for f in range(rnd.randrange(1, 6)):
                k = rnd.randrange(2, 7)
                es = []
                while len(es) < k:
                    e = "".join(rnd.choices(letters[f], k=rnd.randrange(0 if f else 1, 4)))
                    if e not in es: es.append(e)
                fs.append(es)
            size = 1
            for f in fs: size *= len(f)
            n = rnd.choice([size, size, min(n, size)])
            if any(first <= r["last"] + 1 and r["first"] <= first + n for r in ranges) or first + n > 0x110000: continue
            r = {"type": 1, "prefix": f"SYL{i} ", "digits": 4, "elements": fs}
        r.update(first=first, last=first + n - 1)
        ranges.append(r)
    ranges.sort(key=lambda r: r["first"])
    if not ranges:
        ranges = [{"type": 0, "prefix": "LAST-", "digits": 6, "elements": [], "first": 0x100000, "last": 0x100000 + rnd.randrange(50)}]
    def algorithmic(c): return any(r["first"] <= c <= r["last"] for r in ranges)
    listed, aliases, olds, comments, names = {}, {}, {}, {}, set()
    history = rnd.random() < .5                             # has Unicode 1.0 names and comments
    for _ in range(rnd.choice([1, 3, 10, 30])):
        base = rnd.choice([0, 0x20, 0x100, 0x10FFE0, 0xFFE0, 0x10000, rnd.randrange(0x110000), rnd.choice(ranges)["first"] - 3, rnd.choice(ranges)["last"] - 2])
        for c in range(base, base + rnd.choice([1, 5, 40, 90])):
            if not 0 <= c < 0x110000 or algorithmic(c) or rnd.random() < .2: continue
            n = " ".join(rnd.choices(vocabulary, k=rnd.choice([1, 2, 3, 5, 8])))
            n = n.replace("  ", " ").strip() + rnd.choice(["", "", "-A", f"-{c:04X}", " 7"])
            if rnd.random() < .03: n = " ".join([n, *rnd.choices(vocabulary, k=rnd.choice([12, 30]))]).replace("  ", " ").strip()
            if not n or n in names: continue
            names.add(n)
            if rnd.random() < .95: listed[c] = n
            if rnd.random() < .1: aliases[c] = n[:20].strip() + f" FIX{len(aliases)}"
            if history and rnd.random() < .1: olds[c] = n[:20].strip() + (f" OLD{len(olds)}" if rnd.random() < .8 else "")
            if history and rnd.random() < .1: comments[c] = rnd.choice([n[:9].strip(), "X", "A B"]) + (f" {len(comments)}" if rnd.random() < .6 else "")
            if history and c - 1 in comments and rnd.random() < .2: comments[c] = comments[c - 1]
    if not listed: listed[0x41] = "LATIN CAPITAL LETTER A"
    item, fields = build(rnd, [listed, olds, comments, aliases], ranges, vocabulary, rnd.choice([0, 0, 1, 2, 5]), rnd.random() < .8)
    out = {"runs": [], "ranges": [dict(r) for r in ranges]}
    for (codes, texts), f in zip((("codes", "names"), ("oldCodes", "olds"), ("commentCodes", "comments"), ("aliasCodes", "aliases")), fields):
        out[codes], out[texts] = sorted(f), [f[c] for c in sorted(f)]
    return item, out
