#!/usr/bin/env python3
"""Builds data/ucd13.json.gz, the reference data of Unicode 13.0.

Sources, none of them in /repo:
  A  ICU 67's uprops.icu and ubidi.icu (Unicode 13.0), from the run-time image
     of the installed OpenJDK 17, decoded here from the format descriptions in
     ICU's uprops.h / ubidi_props.h
  B  the Java 17 API (Unicode 13.0), dumped by Dump.java
  C  the ICU 74 C API (Unicode 15.1), dumped by icu.c, for code points with
     Age <= 13.0 (a later assignment is an unassigned code point of 13.0)
A (or B) gives the values; B and C are compared with it and every difference
is printed, so that it can be explained (changes between 13.0 and 15.1).

usage: build.py WORKDIR   with icu.txt, java.txt and jx/ (see build.sh)
"""
import bisect, gzip, json, os, struct, sys
W = sys.argv[1]
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "data", "ucd13.json.gz")
CP = 0x110000
JX = os.path.join(W, "jx/java.base/jdk/internal/icu/impl/data/icudt67b")


class Trie2:
    """A serialized big-endian 16-bit UTrie2 (utrie2_impl.h)."""
    def __init__(self, b):
        sig, options, il, dl, i2null, dnull, hs = struct.unpack(">4sHHHHHH", b[:16])
        assert sig == b"Tri2" and options & 15 == 0, (sig, options)
        dl <<= 2
        self.a = struct.unpack(f">{il + dl}H", b[16:16 + 2 * (il + dl)])
        self.il, self.hs, self.hi = il, hs << 11, il + dl - 4

    def get(self, c):
        a = self.a
        if c < 0xD800 or 0xDC00 <= c <= 0xFFFF: return a[(a[c >> 5] << 2) + (c & 31)]
        if c < 0xDC00: return a[(a[0x800 + ((c - 0xD800) >> 5)] << 2) + (c & 31)]
        if c >= self.hs: return a[self.hi]
        return a[(a[a[0x820 + (c >> 11)] + ((c >> 5) & 63)] << 2) + (c & 31)]


def rle(f):
    s, v, last = [], [], object()
    for c in range(CP):
        x = f(c) if callable(f) else f[c]
        if x != last: s.append(c); v.append(x); last = x
    return [s, v]


def expand(r):
    out = []
    for i, s in enumerate(r[0]):
        e = r[0][i + 1] if i + 1 < len(r[0]) else CP
        out += [r[1][i]] * (e - s)
    return out


# ------------------------------------------------------------ source A
b = open(os.path.join(JX, "uprops.icu"), "rb").read()
hl = struct.unpack(">H", b[:2])[0]
ix = struct.unpack(">16i", b[hl:hl + 64])
b = b[hl:]
# indexes count 32-bit words from the start of the indexes
props = Trie2(b[64:])
vecTrie = Trie2(b[ix[3] * 4:])
vectors = struct.unpack(f">{ix[6] - ix[4]}I", b[ix[4] * 4:ix[6] * 4])
ncol = ix[5]
scx = struct.unpack(f">{(ix[7] - ix[6]) * 2}H", b[ix[6] * 4:ix[7] * 4])
P = [props.get(c) for c in range(CP)]
V = [vecTrie.get(c) for c in range(CP)]
print("uprops: columns", ncol, "indexes", ix)
w = lambda c, k: vectors[V[c] + k]
A = {}
A["gc"] = rle(lambda c: P[c] & 31)


def numeric(n):
    """[type, numerator, denominator, power] by the ladder in uprops.h."""
    if n == 0: return [0, 0, 1, 0]
    if n < 11: return [1, n - 1, 1, 0]
    if n < 21: return [2, n - 11, 1, 0]
    if n < 0xB0: return [3, n - 21, 1, 0]
    if n < 0x1E0: return [3, (n >> 4) - 12, (n & 15) + 1, 0]
    if n < 0x300: return [3, (n >> 5) - 14, 1, (n & 31) + 2]
    if n < 0x324: return [3, ((n >> 2) - 0xBF) * 60 ** ((n & 3) + 1), 1, 0]
    if n < 0x33C: f = n - 0x324; return [3, 2 * (f & 3) + 1, 20 << (f >> 2), 0]
    if n < 0x34C: f = n - 0x33C; return [3, 2 * (f & 3) + 1, 32 << (f >> 2), 0]
    raise ValueError(n)


A["numeric"] = rle(lambda c: numeric(P[c] >> 6))
A["age"] = rle(lambda c: (w(c, 0) >> 28) * 100 + (w(c, 0) >> 24 & 15))
def script(c):
    x = w(c, 0); k = x & 0x00C00000; code = (x & 0x300000) >> 12 | x & 255
    return code if k == 0 else 0 if k == 0x400000 else 1 if k == 0x800000 else scx[code]
A["sc"] = rle(script)
A["blk"] = rle(lambda c: (w(c, 0) >> 8) & 0x1FF)
A["ea"] = rle(lambda c: (w(c, 0) >> 17) & 7)
A["lb"] = rle(lambda c: (w(c, 2) >> 20) & 63)
A["SB"] = rle(lambda c: (w(c, 2) >> 15) & 31)
A["WB"] = rle(lambda c: (w(c, 2) >> 10) & 31)
A["GCB"] = rle(lambda c: (w(c, 2) >> 5) & 31)
A["dt"] = rle(lambda c: w(c, 2) & 31)
B1 = ["White_Space", "Dash", "Hyphen", "Quotation_Mark", "Terminal_Punctuation", "Math", "Hex_Digit", "ASCII_Hex_Digit", "Alphabetic",
      "Ideographic", "Diacritic", "Extender", "Noncharacter_Code_Point", "Grapheme_Extend", "Grapheme_Link", "IDS_Binary_Operator",
      "IDS_Trinary_Operator", "Radical", "Unified_Ideograph", "Default_Ignorable_Code_Point", "Deprecated", "Logical_Order_Exception",
      "XID_Start", "XID_Continue", "ID_Start", "ID_Continue", "Grapheme_Base", "Sentence_Terminal", "Variation_Selector",
      "Pattern_Syntax", "Pattern_White_Space", "Prepended_Concatenation_Mark"]
for i, n in enumerate(B1): A["bin." + n] = rle(lambda c: w(c, 1) >> i & 1)
for i, n in enumerate(["Extended_Pictographic", "Emoji_Component", "Emoji", "Emoji_Presentation", "Emoji_Modifier", "Emoji_Modifier_Base"]):
    A["bin." + n] = rle(lambda c: w(c, 2) >> (26 + i) & 1)

b = open(os.path.join(JX, "ubidi.icu"), "rb").read()
hl = struct.unpack(">H", b[:2])[0]; b = b[hl:]
ix = struct.unpack(">16i", b[:64])
bt = Trie2(b[64:64 + ix[2]])
pos = 64 + ix[2]
mirrors = struct.unpack(f">{ix[3]}I", b[pos:pos + 4 * ix[3]]); pos += 4 * ix[3]
jg1 = b[pos:pos + ix[5] - ix[4]]; pos += ix[5] - ix[4]
jg2 = b[pos:pos + ix[7] - ix[6]]
Q = [bt.get(c) for c in range(CP)]
A["bc"] = rle(lambda c: Q[c] & 31)
A["jt"] = rle(lambda c: Q[c] >> 5 & 7)
A["bpt"] = rle(lambda c: Q[c] >> 8 & 3)
A["bin.Join_Control"] = rle(lambda c: Q[c] >> 10 & 1)
A["bin.Bidi_Control"] = rle(lambda c: Q[c] >> 11 & 1)
A["bin.Bidi_Mirrored"] = rle(lambda c: Q[c] >> 12 & 1)
A["jg"] = rle(lambda c: jg1[c - ix[4]] if ix[4] <= c < ix[5] else jg2[c - ix[6]] if ix[6] <= c < ix[7] else 0)
mt = {m & 0x1FFFFF: mirrors[m >> 21] & 0x1FFFFF for m in mirrors}
def mirror(c):
    d = Q[c] >> 13; d = d - 8 if d > 3 else d
    return d if d != -4 else mt[c] - c
A["bmg"] = rle(mirror)
A["bpb"] = rle(lambda c: mirror(c) if Q[c] >> 8 & 3 else 0)

# ------------------------------------------------------------ sources B and C
C, J, names, Cs, Js = {}, {}, {}, {}, {}
uname, alias = {}, {}
for fn, R, S in (("icu.txt", C, Cs), ("java.txt", J, Js)):
    for l in open(os.path.join(W, fn)):
        p = l.rstrip("\n").split(" ")
        if p[0][0] == "#": print(l.strip()); continue
        if p[0] == "@name": names.setdefault(p[1], {})[int(p[2])] = [p[3], p[4]]
        elif p[0] == "@uname": uname[int(p[1], 16)] = l.rstrip("\n").split(" ", 2)[2]
        elif p[0] == "@alias": alias[int(p[1], 16)] = l.rstrip("\n").split(" ", 2)[2]
        elif p[0][0] == "@": S.setdefault(p[0][1:] + "." + p[1], {})[int(p[2], 16)] = [int(x, 16) for x in p[3:]]
        else:
            r = R.setdefault(p[0], [[], []]); r[0].append(int(p[1])); r[1].append(p[2])

age13 = [0 < a <= 1300 for a in expand(A["age"])]
known74 = [int(a) for a in expand(C["age"])]


def compare(what, ref, other, where=lambda c: True, show=30):
    ref, other = expand(ref), expand(other)
    d = [c for c in range(CP) if where(c) and ref[c] != other[c]]
    if d:
        runs = []
        for c in d:
            k = (ref[c], other[c])
            if runs and runs[-1][1] == c - 1 and runs[-1][2] == k: runs[-1][1] = c
            else: runs.append([c, c, k])
        print(f"DIFF {what}: {len(d)} code points in {len(runs)} runs")
        for r in runs[:show]: print(f"   {r[0]:04X}..{r[1]:04X} 13.0={r[2][0]} other={r[2][1]}")


def ints(r): return [r[0], [int(x) for x in r[1]]]


bcJava = {-1: 0, 0: 0, 1: 1, 2: 13, 3: 2, 4: 3, 5: 4, 6: 5, 7: 6, 8: 17, 9: 18, 10: 7, 11: 8, 12: 9, 13: 10, 14: 11, 15: 12, 16: 14,
          17: 15, 18: 16, 19: 20, 20: 21, 21: 19, 22: 22}
gcJava = {v: v for v in range(31)}
gcJava.update({12: 12, 13: 13, 14: 14, 15: 15, 16: 16, 18: 17, 19: 18, 20: 19, 21: 20, 22: 21, 23: 22, 24: 23, 25: 24, 26: 25, 27: 26,
               28: 27, 29: 28, 30: 29})
assigned = lambda c: age13[c]
compare("age icu74", A["age"], ints(C["age"]), lambda c: known74[c] <= 1300)
# 15.1 must call everything that 13.0 has by the same age
compare("gc icu74", A["gc"], ints(C["int.General_Category"]), assigned)
compare("gc java", A["gc"], [J["gc"][0], [gcJava[int(x)] for x in J["gc"][1]]])
compare("bc java", A["bc"], [J["bc"][0], [bcJava[int(x)] for x in J["bc"][1]]], lambda c: age13[c])
compare("bc icu74", A["bc"], ints(C["int.Bidi_Class"]))
for n in ("Lowercase", "Uppercase"): A["bin." + n] = ints(J["bin." + n])     # source B only, compared with C below
compare("mirrored java", A["bin.Bidi_Mirrored"], ints(J["mirrored"]))
for n in ("Alphabetic", "Ideographic", "White_Space", "Join_Control", "Noncharacter_Code_Point"):
    compare(n + " java", A["bin." + n], ints(J["bin." + n]))
for n, l in (("sc", "Script"), ("blk", "Block"), ("ea", "East_Asian_Width"), ("lb", "Line_Break"), ("SB", "Sentence_Break"),
             ("WB", "Word_Break"), ("GCB", "Grapheme_Cluster_Break"), ("dt", "Decomposition_Type"), ("jt", "Joining_Type"),
             ("jg", "Joining_Group"), ("bpt", "Bidi_Paired_Bracket_Type")):
    compare(n + " icu74", A[n], ints(C["int." + l]), lambda c: age13[c] or known74[c] == 0)
for n in A:
    if n.startswith("bin.") and n in C: compare(n + " icu74", A[n], ints(C[n]), lambda c: age13[c] or known74[c] == 0)
    elif n.startswith("bin."): print("no icu74 data for", n)
compare("bmg icu74", A["bmg"], ints(C["mirror"]), assigned)
compare("bpb icu74", A["bpb"], ints(C["bracket"]), assigned)
nv = [A["numeric"][0], [("%.17g" % (n[1] / n[2] * 10.0 ** n[3])) if n[0] else "-123456789" for n in A["numeric"][1]]]
compare("nv icu74", nv, C["nv"], assigned)
compare("nt icu74", [A["numeric"][0], [n[0] for n in A["numeric"][1]]], ints(C["int.Numeric_Type"]), assigned)
for n in ("lower", "upper", "title"):
    J[n] = ints(J[n])
    compare(n + " icu74", J[n], ints(C[n]), assigned)


def sparse(what, ref, other, where=assigned):
    d = [c for c in set(ref) | set(other) if where(c) and ref.get(c) != other.get(c)]
    if d: print(f"DIFF {what}: {len(d)}", [(hex(c), ref.get(c), other.get(c)) for c in sorted(d)[:8]])


def only13(m): return {c: v for c, v in m.items() if age13[c]}


sparse("full lower", Js["case.lower"], Cs["case.lower"]); sparse("full upper", Js["case.upper"], Cs["case.upper"])
sparse("full nfc", Js["full.nfc"], Cs["full.nfc"]); sparse("full nfkc", Js["full.nfkc"], Cs["full.nfkc"])
full = {"lower": Js["case.lower"], "upper": Js["case.upper"], "title": only13(Cs["case.title"])}
decomp = {"nfcRaw": only13(Cs["raw.nfc"]), "nfcFull": Js["full.nfc"], "nfkcRaw": only13(Cs["raw.nfkc"]), "nfkcFull": Js["full.nfkc"]}
ccc = only13({c: [int(v)] for c, v in enumerate(expand(C["int.Canonical_Combining_Class"])) if v != "0"})
for n in ("lower", "upper", "title"): A["case." + n] = J[n]
scriptsJ = expand(J["script"]); sc = expand(A["sc"])
pairs = {}
for c in range(CP): pairs.setdefault(sc[c], set()).add(scriptsJ[c])
print("script numbers with several Java scripts:", {k: v for k, v in pairs.items() if len(v) > 1})
print("Java scripts with several numbers:", [v for v in set(scriptsJ) if sum(v in s for s in pairs.values()) > 1])
blkJ = expand(J["block"]); bl = expand(A["blk"]); pairs = {}
for c in range(CP): pairs.setdefault(bl[c], set()).add(blkJ[c])
print("block numbers with several Java blocks:", {k: v for k, v in pairs.items() if len(v) > 1})
gcbJ = expand(J["gcb"]); g = expand(A["GCB"]); pairs = {}
for c in range(CP): pairs.setdefault(g[c], set()).add(gcbJ[c])
print("gcb numbers with Java types:", pairs)


def pack(m): return {f"{k:X}": v for k, v in sorted(m.items())}


out = {"maps": A, "full": {k: pack(v) for k, v in full.items()}, "decomp": {k: pack(v) for k, v in decomp.items()},
       "ccc": rle(lambda c: ccc.get(c, [0])[0]), "valueNames": names,
       "excluded": [c for c, v in enumerate(expand(C["bin.Full_Composition_Exclusion"])) if v == "1" and age13[c]]}
def save(path, obj):
    with open(path, "wb") as raw, gzip.GzipFile("", "wb", 9, raw, mtime=0) as f:
        f.write(json.dumps(obj, separators=(",", ":"), sort_keys=True).encode())


save(OUT, out)
# ICU 74's view of its own data items (data/icu): names, other normalizers, layout properties
def runsOf(m):
    """[first, last, mapping] for consecutive code points with one mapping."""
    r = []
    for c in sorted(m):
        if r and r[-1][1] == c - 1 and r[-1][2] == m[c]: r[-1][1] = c
        else: r.append([c, c, m[c]])
    return r


icu = {"raw": {n: runsOf(Cs["raw." + n]) for n in ("nfc", "nfkc", "nfkc_cf", "uts46")},
       "excluded": [c for c, v in enumerate(expand(C["bin.Full_Composition_Exclusion"])) if v == "1"],
       "full": {n: runsOf(Cs["full." + n]) for n in ("nfkc", "nfkc_cf", "uts46")},
       "layout": {n: ints(C["int." + n]) for n in ("Indic_Positional_Category", "Indic_Syllabic_Category", "Vertical_Orientation")},
       "gc": ints(C["int.General_Category"]), "nchar": ints(C["bin.Noncharacter_Code_Point"]),
       "ccc": ints(C["int.Canonical_Combining_Class"]), "valueNames": names}
save(os.path.join(os.path.dirname(OUT), "icu74.json.gz"), icu)
import re
algorithmic = lambda n, c: n.endswith("-%04X" % c) or n.startswith("HANGUL SYLLABLE ")
save(os.path.join(os.path.dirname(OUT), "names74.json.gz"),
     {"names": [[c, n] for c, n in sorted(uname.items()) if not algorithmic(n, c)],
      "algorithmic": runsOf({c: [re.sub("-[0-9A-F]+$", "-", n) if n.endswith("-%04X" % c) else "HANGUL SYLLABLE "] for c, n in uname.items() if algorithmic(n, c)}),
      "aliases": [[c, n] for c, n in sorted(alias.items())]})
print("written", os.path.getsize(OUT), {k: len(v[0]) for k, v in A.items()})
